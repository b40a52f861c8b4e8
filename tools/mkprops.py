#!/usr/bin/env python3
"""Writes properties.jsonl. The property texts live here, one call per property."""
import json, os
out = []
E = "engine/engine.go"
def P(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext},
                "why_tests_cant": why, "anchors": a})

P("C01", "Concurrent engine operations take effect one at a time",
  "However many goroutines dispatch messages, tick, run and reset one engine at once, the application code they cause to run never interleaves: the handler calls and reset hooks of one operation all happen before those of another, as if the operations had been performed one after another in some order. Doing so causes no data race in the engine or in non-concurrent application code it calls. Every operation eventually returns, provided the application code it calls returns.",
  ["schedules", "histories", "fault_sequences"],
  "every number of concurrent clients, mix of dispatch, tick, run and reset, statement-level interleaving, and mix of handler failures, panics and cancellations",
  "The suite calls the engine from one goroutine at a time and never runs two operations concurrently, so no test would notice a missing, late or leaked lock.",
  [E, "engine/run.go"],
  [("the engine's context-aware mutex, held for the whole of a dispatch, tick or reset", "engine/engine.go Dispatch, Tick, Reset"),
   ("deferred unlock", "engine/engine.go Dispatch, Tick, Reset")],
  ["begin and end of every handler method and reset hook, with the operation that caused it", "race detector", "simulated deadlock"],
  state=[("controllers", "all per-handler state, unsynchronised except by the engine's mutex", "engine/engine.go")])

P("C02", "Each message reaches each enabled consumer exactly once, in order",
  "A dispatched message, and every command and event that its handling produces, is passed exactly once to every enabled handler that consumes its type and to no other handler. Commands and events are handled in the order they were produced, each only after the handling of the message that caused it has finished. An operation that is not cancelled and does not panic does not return until all of them have been handled.",
  ["inputs", "programs", "histories", "configurations"],
  "every application topology (fan-out to several processes and projections, chains through aggregates, processes and integrations), every cascade of produced messages, any point in the engine's life",
  "Tests drive single hops with one handler of each kind; nothing checks whole cascades with fan-out against an independent account of what should have been delivered.",
  [E, "engine/configurer.go", "engine/internal/aggregate/controller.go", "engine/internal/process/controller.go", "engine/internal/integration/controller.go", "engine/internal/projection/controller.go"],
  [("FIFO queue of produced messages", "engine/engine.go dispatch"), ("routing table built from handler configuration", "engine/configurer.go")],
  ["arguments of every handler call"])

P("C03", "A failing handler is reported and never stops or corrupts other work",
  "When a handler reports an error, the remaining handlers of that message and all other messages in the operation are still handled, and the operation returns an error that includes the error of every handler that failed, each identified by the handler's name; with no failures it returns no error. Commands executed, timeouts scheduled, and ending requested by a process in a handling that fails are discarded. Events recorded by an integration before it fails are still delivered.",
  ["fault_sequences", "inputs", "histories"],
  "every pattern of errors from routing, handling, version checks, resource closing and compaction, across fan-out and cascades, in dispatches and ticks",
  "Tests inject one error into one handler per operation; combinations of several failures, failures deep in a cascade, and the fate of partial output are not sampled.",
  [E, "engine/internal/process/controller.go", "engine/internal/integration/controller.go", "engine/internal/projection/controller.go"],
  [("error accumulation while the queue continues", "engine/engine.go dispatch, tick"), ("process output returned only on success", "engine/internal/process/controller.go Handle")],
  ["returned errors", "handler calls after a failure"])

P("C04", "Cancelling an operation stops it promptly and leaves the engine usable",
  "An operation whose context is cancelled while it waits for another operation returns the context's error promptly, without running any application code and without waiting for the other operation. If the context is cancelled while it is running, no further message is handled after the current one and no further handler is ticked after the current one, and the context's error is returned. Operations that follow behave normally, and an operation that returns no context error has completed all its work.",
  ["schedules", "fault_sequences"],
  "every moment of cancellation or deadline expiry, before, while waiting, inside any handler call, and between messages, under every interleaving with other operations",
  "Tests cancel before the call, or from one handler; the moment of cancellation relative to lock waiting and to other operations is never varied.",
  [E, "engine/run.go"],
  [("context-aware lock", "engine/engine.go Dispatch, Tick"), ("context check between messages and between handlers", "engine/engine.go dispatch, tick")],
  ["returned errors", "simulated time", "handler calls after cancellation"])

P("C05", "A panic in application code surfaces unchanged and poisons nothing",
  "A panic raised by application code during an operation reaches the operation's caller with its original value (a use of the unexpected-message panic is instead reported together with the handler and the message), on the caller's goroutine and never any other. By the time it reaches the caller, no application code of that operation is still running and the engine accepts further operations. Effects of handlings that finished before the panic are kept, effects of the panicking handling are not.",
  ["fault_sequences", "schedules", "histories"],
  "a panic (or goroutine exit) at every call point of every handler method, root, observer and background compaction, under every interleaving with concurrent operations",
  "Tests check the value of single panics only; state retained across a panic, lock release, and panics in the background compaction are not tested.",
  [E, "engine/internal/panicx/unexpectedmessage.go", "engine/internal/aggregate/controller.go", "engine/internal/process/controller.go", "engine/internal/projection/controller.go"],
  [("deferred unlock", "engine/engine.go"), ("state committed only after the handler returns", "controllers' Handle"), ("panic enrichment that re-panics other values", "engine/internal/panicx")],
  ["recovered value", "later handler calls", "simulated process crash or deadlock"])

P("C06", "Aggregate state is exactly the replay of its own recorded events",
  "Each time an aggregate handles a command, the root it is given is a new root to which exactly the events recorded by that instance since it was created, or since its destruction last took effect, have been applied in order; no other instance's events and no events of a handling that panicked are included. Recording an event applies it to the handler's root immediately. Destruction takes effect when the handling completes unless an event is recorded later in the same handling, in which case the whole history is kept.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of commands, instances, events, destructions, re-creations, panics and resets",
  "Tests replay one or two events once; long histories mixing instances, destruction, re-creation and failures are not covered.",
  ["engine/internal/aggregate/controller.go", "engine/internal/aggregate/scope.go"],
  [("per-instance event history replayed on each command", "engine/internal/aggregate/controller.go Handle"), ("existence flag", "engine/internal/aggregate/scope.go")],
  ["events applied to each root, observed inside the application's root and handler"])

P("C07", "Process instances begin, persist and end exactly as their handlers direct",
  "An event routed to an instance that does not exist is handled with a new root; while the instance exists every later event or timeout for it is handled with that same root, and instances never share a root. An instance that requests ending, without executing a command or scheduling a timeout afterwards in that handling, ceases to exist when the handling succeeds: its pending timeouts are never delivered and the next event begins it afresh. A handling that fails does not begin or end the instance, and events the process chooses to ignore have no effect.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of events, timeouts, endings, reverted endings, errors and panics over several processes and instances",
  "Tests take one instance through one begin/end; interleaved lifecycles with failures and timeouts are not covered.",
  ["engine/internal/process/controller.go", "engine/internal/process/scope.go"],
  [("instance table updated after success", "engine/internal/process/controller.go Handle, update, delete"), ("ended flag", "engine/internal/process/scope.go")],
  ["root identity and content seen by each handler call"])

P("C08", "A process timeout fires once, never early, in order, at its own instance",
  "A timeout that falls due after the current engine time is delivered exactly once, to the instance that scheduled it, in the first tick whose time is at or after its due time and in which that process is enabled, and never earlier; one that is already due when scheduled is delivered within the same operation. Timeouts of a process delivered by one tick arrive in order of due time. A timeout is never delivered to an instance that has ended, nor after a reset.",
  ["histories", "inputs", "schedules", "configurations"],
  "every sequence of schedulings (past, present, future, equal times), ticks with arbitrary times (including going backwards), endings, disablings, failures and resets, concurrent or not",
  "Tests schedule one or two timeouts and tick once or twice; the sorted store is never exercised with interleaved instances, ties, endings and skipped ticks.",
  ["engine/internal/process/controller.go", "engine/internal/process/scope.go", E],
  [("timeouts kept sorted by due time", "engine/internal/process/controller.go update, Tick"), ("filtering on end", "engine/internal/process/controller.go delete")],
  ["due time and instance of each timeout handled"])

P("C09", "Projections see the optimistic concurrency protocol followed exactly",
  "For each event passed to a projection, the version of a resource used for that event alone is read first; the event is applied only if that version is empty, with the empty version as current and a non-empty next version, and the same resource throughout. The resource is closed exactly once, after and only if the handler reports that it applied the event, and an error from any of these steps is reported and stops the later ones. Two different events never share a resource within the life of the engine between resets.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "every outcome (applied, not applied, error, panic) of each protocol step, every prior version, with and without concurrent compaction and concurrent operations",
  "Tests look at each step with a stub for one event; sequences with failures and distinctness of resources across operations and resets are not covered.",
  ["engine/internal/projection/controller.go", E],
  [("message ID used as the resource", "engine/internal/projection/controller.go Handle")],
  ["arguments and order of the projection's method calls"])

P("C10", "Projection compaction happens on schedule and never outlives its handling",
  "A tick compacts an enabled projection exactly when it has never been compacted by a tick or at least one hour of engine time has passed since the last tick that did so. Where compaction during handling is enabled, each event that is passed to a projection is accompanied by exactly one compaction that can overlap it, that has always ended before the handling is complete, whether the handler succeeds, fails or panics, and whose panic reaches the caller rather than ending the program. Compaction errors are reported, and the compaction is told the engine time.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the background compaction with the handler, every outcome of both, every sequence of tick times",
  "Tests run the compaction once with whatever order the Go scheduler happens to pick.",
  ["engine/internal/projection/controller.go", "engine/internal/projection/scope.go"],
  [("goroutine plus result channel", "engine/internal/projection/controller.go Handle"), ("last compaction time", "engine/internal/projection/controller.go Tick")],
  ["begin and end of compaction and handling calls, their engine time"])

P("C11", "Observers see every fact, in order, properly nested, one at a time",
  "Every observer of an operation is told the same facts in the same order, never two at a time and never after the operation has returned, including while compaction runs in the background. The facts are complete and true: each operation, message, handler call or skip, tick, instance lifecycle step, produced message, compaction and log message appears exactly once, with begin and end properly nested around what happened in between, and ends carry the error that occurred. Facts never describe anything that did not happen, and do not change once told.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "every cascade, failure, cancellation and interleaving, with any number of observers, shared or not between concurrent operations of one test",
  "Tests compare the fact list of single-hop operations; completeness over cascades, failures and concurrent compaction is not checked.",
  [E, "engine/internal/aggregate/scope.go", "engine/internal/process/scope.go", "engine/internal/integration/scope.go", "engine/internal/projection/scope.go", "engine/internal/projection/controller.go", "fact/observer.go"],
  [("notification from the operation's own goroutine", "engine and controllers"), ("observer group", "fact/observer.go")],
  ["facts received by each observer against what the application did"])

P("C12", "Messages carry unique IDs and true causality, time and origin",
  "Every message handled since the engine was created or last reset has an ID that no other such message has, whatever operations run concurrently. A dispatched message is its own cause and correlation; a produced message has as its cause the message being handled when it was produced, and the same correlation as that message. Its creation time is the engine time of the operation that produced it, its origin is the handler and instance that produced it, a timeout carries its due time, and handlers are shown these same times.",
  ["histories", "schedules", "inputs"],
  "every cascade and every interleaving of concurrent dispatches, ticks and resets",
  "Tests compare a handful of sequential IDs; uniqueness under concurrency and causality across cascades and timeouts are not checked.",
  ["envelope/envelope.go", "envelope/id.go", E, "engine/internal/process/scope.go", "engine/internal/aggregate/scope.go", "engine/internal/integration/scope.go"],
  [("atomic sequence", "envelope/id.go"), ("child envelope construction", "envelope/envelope.go")],
  ["envelopes in facts, times shown to handlers"])

P("C13", "Only enabled handlers run, per operation, and skips are reported",
  "For each operation a handler is enabled by the last option naming it, otherwise it is disabled if its own configuration disables it, otherwise by the last option for its handler type, otherwise enabled. A handler that is not enabled has none of its methods called by that operation, produces no error, and the skip is reported to observers with the reason that applied. Options given to one operation never affect another, even one running at the same time.",
  ["configurations", "histories", "schedules"],
  "every combination and order of handler, handler-type and configuration enablement, across concurrent and successive operations",
  "Tests flip one option at a time in isolation.",
  [E, "engine/operationoption.go"],
  [("skip decision", "engine/engine.go skipHandler"), ("per-operation option maps", "engine/operationoption.go newOperationOptions")],
  ["handler calls and skip facts"])

P("C14", "Reset returns the engine to its initial state, atomically",
  "After a reset no aggregate or process instance, pending timeout or message number from before it is visible to any later operation, and message numbering starts again from its first value. Each reset hook is called exactly once per reset, in the order given. With concurrent operations, each operation happens entirely before or entirely after the reset.",
  ["histories", "schedules", "fault_sequences"],
  "every history before the reset, every interleaving of resets with other operations",
  "Tests reset an idle engine once after one message.",
  [E, "engine/engineoption.go", "envelope/id.go", "engine/internal/aggregate/controller.go", "engine/internal/process/controller.go"],
  [("reset under the engine's lock", "engine/engine.go Reset"), ("controllers' Reset", "engine/internal/*/controller.go")],
  ["state and IDs seen by later operations, hook calls"])

P("C15", "Continuous running ticks at once, at the interval, on the scaled clock",
  "Running an engine ticks immediately and then again one interval after each tick ends (the documented default interval when none is given) until the context ends or a tick fails, and then returns that error without ticking again. The engine time of each tick is the start time (or the given epoch) plus the real time elapsed since running began multiplied by the given factor. Other operations may be performed on the engine between the ticks.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every interval, factor and epoch, tick durations, failing ticks, moments of cancellation, and concurrent operations, in simulated time",
  "Tests sleep on the real clock for a few milliseconds and accept wide tolerances; drift, slow ticks and long runs cannot be tested.",
  ["engine/run.go"],
  [("tick loop", "engine/run.go RunTimeScaled")],
  ["engine time and simulated real time of each tick, returned error"])

P("C16", "A test's virtual clock moves only when told to, and never backwards",
  "A test's virtual time starts at the configured start time, or the time the test began, and changes only by advance-time actions, whatever real time passes. Every action runs with the current virtual time as engine time; advancing time sets the clock and then ticks the engine at the new time. An adjustment that would move time backwards fails the test, performs nothing and leaves the clock unchanged.",
  ["histories", "inputs", "schedules"],
  "every sequence of actions, adjustments (absolute, relative, custom, backwards, zero), failures and real-time delays",
  "Tests advance the clock once from one start time.",
  ["test.go", "action.advancetime.go", "testoption.go"],
  [("virtual clock passed to every operation", "test.go doAction"), ("reverse check", "action.advancetime.go Do")],
  ["engine time seen by handlers and facts"])

P("C17", "Message expectations pass exactly when the action produced such a message",
  "An expectation about a specific command or event, a message type, or a message matching a function passes if and only if the expected action alone produced at least one such message (for the exclusive form: if and only if every message of that kind that is not explicitly ignored matched). Messages produced by handlers anywhere in the action's cascade count; the message dispatched by the action itself does not, but commands sent through the test's command executor during a called function do. Messages of earlier or later actions never count.",
  ["inputs", "histories", "schedules", "configurations"],
  "every sequence of actions and expectations, every cascade, and any number of goroutines executing commands inside a called function",
  "Tests use one message per expectation and a single goroutine; verdicts under cascades, repetition and concurrent execution are not covered.",
  ["expectation.message.go", "expectation.messagetype.go", "expectation.messagematch.go", "expectation.messagecommon.go", "test.go"],
  [("fact tracker per predicate", "expectation.messagecommon.go"), ("one predicate per expectation evaluation", "test.go Expect")],
  ["whether the test failed, against the messages the application produced"])

P("C18", "Composite expectations give the verdict of their boolean meaning",
  "Combining expectations with all-of, any-of, none-of, not and repetition, nested to any depth, yields exactly the boolean combination of the verdicts their parts give on their own for the same action. A user-defined expectation receives exactly the facts of that action, in order, and passes unless it fails without being skipped. Each part observes the whole action regardless of the verdicts of the others.",
  ["inputs", "programs", "histories", "fault_sequences"],
  "every expectation tree over every action, including failing and skipping user-defined expectations",
  "Tests try shallow combinations of always-pass and always-fail children.",
  ["expectation.composite.go", "expectation.not.go", "expectation.repeat.go", "expectation.satisfy.go"],
  [("fact fan-out to children", "expectation.composite.go Notify"), ("count-based verdict", "expectation.composite.go ok")],
  ["whether the test failed, facts seen by the user-defined expectation"])

P("C19", "The test's command executor works only inside a call, and waits for it",
  "Commands executed through a test's command executor while a called function is running, from any number of goroutines, are handled by that test's engine, and each execution returns only once its command and everything it caused has been handled. Outside a called function it panics and has no effect, and the action does not finish while an execution is still in progress. An interceptor given for one call replaces the test's interceptor for exactly that call, even if the function panics.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of goroutines executing commands with each other and with the end of the call, with interceptors that pass on, replace, refuse or panic",
  "Tests call the executor once from the test goroutine.",
  ["executor.go", "action.call.go", "engine/executor.go"],
  [("bind and unbind under a read-write lock", "executor.go"), ("deferred unbind and interceptor restore", "action.call.go Do")],
  ["handler calls caused by each execution, panics, race detector"])

P("C20", "A failed action or impossible expectation always fails the test",
  "If performing an action returns an error, the test fails, whatever the expectation's verdict would have been, and the failure includes that error. An expectation about a message type the application can never produce fails the test without the action being performed. An action involving an unrecognised message type fails the test and runs no application code; a test is otherwise failed only if the expectation is not met.",
  ["inputs", "fault_sequences", "histories", "configurations"],
  "every action outcome, application configuration and expectation, at any point of a test",
  "Tests sample one error per action type.",
  ["test.go", "action.dispatch.go", "expectation.messagecommon.go"],
  [("fatal on action error", "test.go Prepare, Expect"), ("impossible type guard", "expectation.messagecommon.go")],
  ["failures reported to the testing object, application code run"])

P("C21", "A test runs exactly the handlers it has enabled",
  "In a test, aggregates and processes are enabled and projections and integrations disabled unless a call for that handler by name or pattern, of which the last one wins, says otherwise; the setting applies to every later action until changed. A handler disabled by its own configuration never runs, and asking to enable it, or naming an unknown handler, or giving a pattern that matches no available handler, panics and changes nothing. Patterns affect exactly the handlers whose names match.",
  ["configurations", "histories", "inputs"],
  "every sequence of enable and disable calls by name and pattern between actions, on every application",
  "Tests flip a single handler once.",
  ["test.go", "testoption.go"],
  [("accumulated operation options", "test.go enableHandlers, enableHandlersLike")],
  ["which handlers' methods run in each action"])

P("C22", "User-defined expectations may be driven from many goroutines safely",
  "While a user-defined expectation runs, any number of goroutines may log, fail, skip, register clean-up and query its status at once without a data race, deadlock or lost effect: once any of them reports failure the expectation has failed and every logged message appears exactly once, whole, in the report. A fatal failure or skip made on the goroutine that runs the function stops it at once without a panic escaping. Clean-up functions, including ones registered by other clean-up functions, all run exactly once, last registered first, after the function ends in any way.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of calls from any number of goroutines, with every way for the function to end",
  "Tests call these methods from a single goroutine.",
  ["expectation.satisfy.go"],
  [("read-write lock around state", "expectation.satisfy.go SatisfyT"), ("abort by recovered panic", "expectation.satisfy.go Done")],
  ["verdict, report content, clean-up calls, race detector"])

P("C23", "The fact buffer gives consistent snapshots under concurrency",
  "A fact buffer shared by any number of notifying and reading goroutines holds every fact notified so far exactly once: each snapshot contains all facts whose notification finished before the snapshot was requested, no fact whose notification began after it was returned, and facts of one goroutine in order. Snapshots extend one another and never change after they were taken, even if the caller modifies another snapshot. There is no data race or deadlock.",
  ["schedules", "histories"],
  "every interleaving of notifying and reading goroutines",
  "Tests notify and read from one goroutine.",
  ["fact/observer.go"],
  [("read-write lock and copy on read", "fact/observer.go Buffer")],
  ["linearizability of notify and read histories, race detector"])

P("C24", "Breaches of the handler contract are always rejected, with no effect",
  "Producing a message that is invalid or that the handler is not configured to produce, routing to an empty instance ID, and supplying no root each cause a panic identifying the handler, at the point of the breach, and neither that message nor any effect of that handling takes place. Dispatching a message that is invalid or that no handler consumes, or naming an unknown handler in an option, panics before any application code runs and before any observer is notified. Messages that break no rule are never rejected.",
  ["inputs", "histories", "fault_sequences"],
  "every breach at every step of every handling in a cascade, alone or with others in progress concurrently",
  "Tests provoke each breach once at the first step of a handling and do not look at what happens afterwards.",
  [E, "engine/operationoption.go", "engine/internal/aggregate/scope.go", "engine/internal/process/scope.go", "engine/internal/integration/scope.go", "engine/internal/panicx/unexpectedbehavior.go"],
  [("checks before effects in scopes", "engine/internal/*/scope.go"), ("checks before locking in dispatch", "engine/engine.go Dispatch")],
  ["panic values, absence of later deliveries and state"])

P("C25", "Independent engines and tests running in parallel do not affect each other",
  "Engines and tests that share nothing but program code behave, when run at the same time in one program, exactly as each does when run alone. They share no message numbering, handler state, pending timeouts, enablement settings, virtual clock or command executor. Running them in parallel causes no data race.",
  ["schedules", "histories"],
  "every interleaving of independent engines and tests",
  "The suite never runs two engines at the same time, so accidental package-level state would go unnoticed.",
  [E, "test.go", "envelope/id.go", "fact/observer.go", "internal/validation/validation.go"],
  [("all state held by engine and test values", "engine/engine.go, test.go")],
  ["history of each engine compared with its solo run, race detector"])

P("N01", "Reports, diffs, locations and log lines render their input faithfully",
  "Test reports, message diffs, source locations and rendered log lines describe the data they are given completely and correctly. Equal data always gives equal text. Rendering never fails.",
  ["inputs"], "every report, message pair, function and fact",
  "Only hand-picked outputs are compared.",
  ["report.go", "internal/report/diff.go", "location/location.go", "internal/inflect/inflect.go", "fact/logger.go"],
  [("pure formatting functions", "report.go, internal/report, location, internal/inflect, fact/logger.go")], ["rendered text"])

P("N02", "Message comparison is an equivalence consistent with message content",
  "The default message comparison treats two messages as equal exactly when they have the same type and content, with protocol buffers compared by their own notion of equality. It is reflexive, symmetric and transitive. It never panics.",
  ["inputs"], "every pair of messages", "Only hand-picked pairs are compared.",
  ["compare.go"], [("type-directed equality", "compare.go")], ["comparison result"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in out:
        f.write(json.dumps(p) + "\n")
print(len(out))
