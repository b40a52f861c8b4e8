From 299342586e90d0cd4280557af267779ed4de5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:14 +0000
Subject: [PATCH 1/8] fix: report compaction log messages from the goroutine
 that handles the event

A projection that logs while it is compacted in parallel with handling an event
notified the fact observers from the compaction goroutine. Observers are not
required to be safe for concurrent use.

The facts are now buffered, and passed to the observers by the main goroutine
once the compaction has ended.
---
 engine/internal/projection/controller.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3289cbe..567eb69 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -110,6 +110,7 @@ func (c *Controller) Handle(
 	}
 
 	compactResult := make(chan error, 1)
+	compactFacts := &fact.Buffer{}
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -121,12 +122,15 @@ func (c *Controller) Handle(
 		// Start a goroutine so that compaction happens in parallel with
 		// handling the message. This is intended to ensure the implementation
 		// can actually handle such parallelism, which is required by the spec.
+		//
+		// The facts recorded by the compaction are buffered, so that they too
+		// can be passed to the observer by the main goroutine.
 		go func() {
 			compactResult <- c.Config.Handler().Compact(
 				ctx,
 				&scope{
 					config:   c.Config,
-					observer: obs,
+					observer: compactFacts,
 					now:      now,
 				},
 			)
@@ -156,6 +160,10 @@ func (c *Controller) Handle(
 
 	compactErr := <-compactResult
 
+	for _, f := range compactFacts.Facts() {
+		obs.Notify(f)
+	}
+
 	if c.CompactDuringHandling {
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
-- 
2.43.0


From bc7162857b26bcd6a8685d51d6bfca34ba181f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:14 +0000
Subject: [PATCH 2/8] fix: wait for projection compaction to end when
 HandleEvent() panics

The compaction goroutine was left running after the panic had propagated out of
the engine. It could then run at the same time as later operations on the same
handler.
---
 engine/internal/projection/controller.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 567eb69..ecdb464 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -139,7 +139,11 @@ func (c *Controller) Handle(
 		close(compactResult)
 	}
 
-	var ok bool
+	var (
+		ok         bool
+		compactErr error
+	)
+
 	panicx.EnrichUnexpectedMessage(
 		c.Config,
 		"ProjectionMessageHandler",
@@ -147,6 +151,16 @@ func (c *Controller) Handle(
 		handler,
 		env.Message,
 		func() {
+			// Wait for the compaction to end even if HandleEvent() panics, so
+			// that the handler is never in use after this method exits.
+			defer func() {
+				compactErr = <-compactResult
+
+				for _, f := range compactFacts.Facts() {
+					obs.Notify(f)
+				}
+			}()
+
 			ok, err = handler.HandleEvent(
 				ctx,
 				res,
@@ -158,12 +172,6 @@ func (c *Controller) Handle(
 		},
 	)
 
-	compactErr := <-compactResult
-
-	for _, f := range compactFacts.Facts() {
-		obs.Notify(f)
-	}
-
 	if c.CompactDuringHandling {
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
-- 
2.43.0


From 51a7bec9bed8eec7d29a7b09f6c26d884344370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:14 +0000
Subject: [PATCH 3/8] fix: raise panics from parallel projection compaction in
 the caller's goroutine

A panic in Compact() while an event was being handled occurred in a goroutine of
its own, where nothing could recover from it, and so ended the whole program.
runtime.Goexit() in Compact() blocked the engine forever.
---
 engine/internal/projection/controller.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index ecdb464..5892cfc 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -111,6 +111,7 @@ func (c *Controller) Handle(
 
 	compactResult := make(chan error, 1)
 	compactFacts := &fact.Buffer{}
+	var compactPanic any
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -125,7 +126,13 @@ func (c *Controller) Handle(
 		//
 		// The facts recorded by the compaction are buffered, so that they too
 		// can be passed to the observer by the main goroutine.
+		//
+		// A panic is recovered here and raised again by the main goroutine,
+		// otherwise the caller has no opportunity to recover from it.
 		go func() {
+			defer close(compactResult)
+			defer func() { compactPanic = recover() }()
+
 			compactResult <- c.Config.Handler().Compact(
 				ctx,
 				&scope{
@@ -154,7 +161,9 @@ func (c *Controller) Handle(
 			// Wait for the compaction to end even if HandleEvent() panics, so
 			// that the handler is never in use after this method exits.
 			defer func() {
-				compactErr = <-compactResult
+				for e := range compactResult {
+					compactErr = e
+				}
 
 				for _, f := range compactFacts.Facts() {
 					obs.Notify(f)
@@ -172,6 +181,10 @@ func (c *Controller) Handle(
 		},
 	)
 
+	if compactPanic != nil {
+		panic(compactPanic)
+	}
+
 	if c.CompactDuringHandling {
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
-- 
2.43.0


From 1bb0bed015cd1e7c37268ea94b245edc8d6b4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:43 +0000
Subject: [PATCH 4/8] fix: do not reuse message IDs when the engine is reset
 during a dispatch

Dispatch() allocated the ID of the message before it waited for exclusive use of
the engine. If the engine was reset while it waited, the message was handled
with an ID from before the reset, which was then given to another message.
---
 engine/engine.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engine/engine.go b/engine/engine.go
index 9f22317..25ab852 100644
--- a/engine/engine.go
+++ b/engine/engine.go
@@ -187,9 +187,17 @@ func (e *Engine) Dispatch(
 	options ...OperationOption,
 ) error {
 	mt := message.TypeOf(m)
-	id := e.messageIDs.Next()
 	oo := newOperationOptions(e, options)
 
+	// Acquire the lock before allocating the message ID, otherwise the engine
+	// could be reset in between, and later allocate the same ID again.
+	lockErr := e.m.Lock(ctx)
+	if lockErr == nil {
+		defer e.m.Unlock()
+	}
+
+	id := e.messageIDs.Next()
+
 	env, err := message.MapByKindOfWithErr(
 		m,
 		func(m dogma.Command) (*envelope.Envelope, error) {
@@ -219,9 +227,8 @@ func (e *Engine) Dispatch(
 		},
 	)
 
-	err = e.m.Lock(ctx)
+	err = lockErr
 	if err == nil {
-		defer e.m.Unlock()
 		err = e.dispatch(ctx, oo, env)
 	}
 
-- 
2.43.0


From 13e5bb2125151dda36e9154bd9f5a5af3f3bfc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:44 +0000
Subject: [PATCH 5/8] fix: do not apply some handler names when another is
 rejected

EnableHandlers() and DisableHandlers() panic when given an unknown or disabled
handler. The names before the rejected one were still applied to the test.
---
 test.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/test.go b/test.go
index 6f022c0..abdaf2f 100644
--- a/test.go
+++ b/test.go
@@ -235,6 +235,10 @@ func (t *Test) DisableHandlersLike(patterns ...string) *Test {
 }
 
 func (t *Test) enableHandlers(names []string, enable bool) *Test {
+	// Build the options separately so that none of them are applied if there is
+	// a problem with any of the names.
+	var options []engine.OperationOption
+
 	for _, n := range names {
 		h, ok := t.app.Handlers().ByName(n)
 		if !ok {
@@ -257,12 +261,11 @@ func (t *Test) enableHandlers(names []string, enable bool) *Test {
 			))
 		}
 
-		t.operationOptions = append(
-			t.operationOptions,
-			engine.EnableHandler(n, enable),
-		)
+		options = append(options, engine.EnableHandler(n, enable))
 	}
 
+	t.operationOptions = append(t.operationOptions, options...)
+
 	return t
 }
 
-- 
2.43.0


From 3cc539bb17ec7ca14e6982a4b235abcdca62f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:44 +0000
Subject: [PATCH 6/8] fix: run every SatisfyT cleanup function

A cleanup function registered by another cleanup function never ran, and one
that aborted or panicked kept the remaining ones from running.
---
 expectation.satisfy.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d4e85c9..f81c86a 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -362,11 +362,36 @@ func (t *SatisfyT) explain(fn string) {
 	}
 }
 
-// close calls any functions registered via Cleanup().
+// close calls any functions registered via Cleanup(), including those that are
+// registered by other cleanup functions.
 func (t *SatisfyT) close() {
-	for i := len(t.cleanup) - 1; i >= 0; i-- {
-		t.cleanup[i]()
+	t.m.Lock()
+
+	n := len(t.cleanup)
+	if n == 0 {
+		t.m.Unlock()
+		return
 	}
+
+	fn := t.cleanup[n-1]
+	t.cleanup = t.cleanup[:n-1]
+
+	t.m.Unlock()
+
+	// Call the remaining functions even if this one aborts or panics.
+	defer t.close()
+
+	// An abort must not replace a panic that is already in progress.
+	defer func() {
+		switch r := recover().(type) {
+		case abortSentinel, nil:
+			return
+		default:
+			panic(r)
+		}
+	}()
+
+	fn()
 }
 
 // findFrame searches, starting after skip frames, for the first caller frame
-- 
2.43.0


From 22ecd5c9b34563f0f24d21be28e33c36560b7924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:44 +0000
Subject: [PATCH 7/8] fix: keep the call interceptor installed while the
 executor is bound

A goroutine that used the command executor right at the start or the end of a
Call() action could bypass the interceptor given for that call.
---
 action.call.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/action.call.go b/action.call.go
index 4799d28..1c6ac61 100644
--- a/action.call.go
+++ b/action.call.go
@@ -67,15 +67,17 @@ func (a callAction) ConfigurePredicate(o *PredicateOptions) {
 }
 
 func (a callAction) Do(_ context.Context, s ActionScope) error {
-	// Setup the command executor for use during this action.
-	s.Executor.Bind(s.Engine, s.OperationOptions)
-	defer s.Executor.Unbind()
-
+	// Install the interceptor before binding the executor (and hence remove it
+	// after unbinding) so that it is in place whenever the executor is usable.
 	if a.onExecute != nil {
 		prev := s.Executor.Intercept(a.onExecute)
 		defer s.Executor.Intercept(prev)
 	}
 
+	// Setup the command executor for use during this action.
+	s.Executor.Bind(s.Engine, s.OperationOptions)
+	defer s.Executor.Unbind()
+
 	// Execute the user-supplied function.
 	a.fn()
 
-- 
2.43.0


From b8bddcabcd47bda7468b4092a5a4146a4f689121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:44 +0000
Subject: [PATCH 8/8] fix: do not notify a predicate from several goroutines at
 once

Commands that are executed concurrently within Call() could notify the
predicate at the same time if one of them could not acquire the engine.
---
 test.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/test.go b/test.go
index abdaf2f..1c82f58 100644
--- a/test.go
+++ b/test.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"regexp"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/dogmatiq/configkit"
@@ -121,7 +122,7 @@ func (t *Test) Expect(act Action, e Expectation) *Test {
 	// p.Report().
 	if err := func() error {
 		defer p.Done()
-		return t.doAction(act, engine.WithObserver(p))
+		return t.doAction(act, engine.WithObserver(&predicateObserver{p: p}))
 	}(); err != nil {
 		t.testingT.Fatal(err)
 		return t // required when using a mock testingT that does not panic
@@ -176,6 +177,22 @@ func (t *Test) Expect(act Action, e Expectation) *Test {
 	return t
 }
 
+// predicateObserver is a [fact.Observer] that forwards facts to a predicate.
+//
+// Commands may be executed by several goroutines at once during a single
+// action, but predicates do not need to be safe for concurrent use.
+type predicateObserver struct {
+	m sync.Mutex
+	p Predicate
+}
+
+func (o *predicateObserver) Notify(f fact.Fact) {
+	o.m.Lock()
+	defer o.m.Unlock()
+
+	o.p.Notify(f)
+}
+
 // CommandExecutor returns a dogma.CommandExecutor which can be used to execute
 // commands within the context of this test.
 //
-- 
2.43.0

