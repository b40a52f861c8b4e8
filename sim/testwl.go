package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// TestScen is a test of the simulated application.
type TestScen struct {
	App   AppSpec
	Start *int       `json:",omitempty"` // start time, in units since the epoch
	Stop  string     // what the testing.T does on failure: panic, exit or return
	Icpt  string     `json:",omitempty"` // the test's command executor interceptor
	Cut   *Cut       `json:",omitempty"` // cancels the test's context
	Cmp   string     `json:",omitempty"` // message comparator: "", script
	Acts  []*ActSpec `json:",omitempty"`
	Exps  []*ExpSpec `json:",omitempty"`
	Steps []*StepSpec
}

// Cut says when the context of a test is cancelled: after some number of
// scheduling decisions and some time, or, if Step is positive, before that step.
type Cut struct {
	Yields int `json:",omitempty"`
	D      int `json:",omitempty"` // milliseconds
	Step   int `json:",omitempty"`
}

// StepSpec is a call to a method of the test.
type StepSpec struct {
	Kind  string   // prepare, expect, enable, disable, sleep, exec, annotate
	Acts  []int    `json:",omitempty"` // indices of actions
	Exp   int      `json:",omitempty"` // index of the expectation
	Raw   bool     `json:",omitempty"` // use the action itself, not one that records its use
	Names []string `json:",omitempty"`
	Like  bool     `json:",omitempty"` // the names are patterns
	X     *XStep   `json:",omitempty"`
	D     int      `json:",omitempty"`
}

// ActSpec is an action of a test.
type ActSpec struct {
	Kind string // cmd, evt, by, to, adj, call
	T    int    `json:",omitempty"`
	N    int    `json:",omitempty"`
	I    string `json:",omitempty"`
	D    int    `json:",omitempty"` // milliseconds, for by, to and adj
	Icpt string `json:",omitempty"` // interceptor of the call
	Gs   []*GSpec
}

// GSpec is a goroutine of a called function. The first one is the function's
// own.
type GSpec struct {
	Esc   bool `json:",omitempty"` // the function does not wait for it
	Steps []XStep
}

// XStep is a step of a called function.
type XStep struct {
	Op  string    // exec, set, yield, sleep, panic
	T   int       `json:",omitempty"`
	N   int       `json:",omitempty"`
	I   string    `json:",omitempty"`
	D   int       `json:",omitempty"`
	Ctx string    `json:",omitempty"` // "", pre, cancel, soon, far
	Set *StepSpec `json:",omitempty"` // handlers to enable or disable
}

// ExpSpec is an expectation.
type ExpSpec struct {
	Kind string     // cmd, evt, cmdtype, evttype, cmdmatch, evtmatch, onlycmd, onlyevt, sat, all, any, none, not, rep
	T    int        `json:",omitempty"` // type, or -1 for any
	N    int        `json:",omitempty"`
	I    string     `json:",omitempty"`
	Alt  bool       `json:",omitempty"` // use the other form of the same expectation
	Rec  bool       `json:",omitempty"` // record what the expectation observes
	Tab  string     `json:",omitempty"` // per script: match, ignore or fail
	Sat  []string   `json:",omitempty"`
	Kids []*ExpSpec `json:",omitempty"`
}

type testWorld struct {
	*World
	sc   *TestScen
	t    *testkit.Test
	cur  *opInfo
	own  context.Context // the test's
	ctx  context.Context
	acts []testkit.Action
	exps []testkit.Expectation
	wg   *sync.WaitGroup
	nop  int32
	adv  []bool
}

func newTestWorld(id int32, sc *TestScen) world {
	w := &testWorld{World: newWorld(id, &sc.App), sc: sc}
	w.noTags = true
	w.compactOn = true
	w.dispatching = func(op int32) bool { return op >= 0 && !w.advances(op) }
	return w
}

//go:norace
func (w *testWorld) newOp(adv bool) int32 {
	w.adv = append(w.adv, adv)
	return int32(len(w.adv) - 1)
}

//go:norace
func (w *testWorld) advances(op int32) bool { return w.adv[op] }

// testStop is the panic value with which the stand-in for testing.T ends the
// test.
type testStop struct{}

// simT is the stand-in for testing.T.
type simT struct {
	w    *World
	mode string
}

func (t *simT) note(what string, v any) {
	add(&Ev{Kind: evNote, W: t.w.id, Op: curOp(nil), H: -1, S: what, V: v})
	yield()
}

func (t *simT) stop() {
	switch t.mode {
	case "panic":
		panic(testStop{})
	case "exit":
		runtime.Goexit()
	}
}

func (t *simT) Failed() bool            { return false }
func (t *simT) Helper()                 {}
func (t *simT) Logf(f string, a ...any) { t.Log(fmt.Sprintf(f, a...)) }

func (t *simT) Log(a ...any) {
	if len(a) == 1 {
		if s, ok := a[0].(string); ok && strings.HasPrefix(s, "--- TEST REPORT") {
			t.note("report", s)
		}
	}
}

func (t *simT) Fatal(a ...any) {
	t.note("fatal", fmt.Sprint(a...))
	t.stop()
}

func (t *simT) FailNow() {
	t.note("failnow", nil)
	t.stop()
}

// tap records facts. Unlike other observers it may be notified by several
// goroutines at once.
type tap struct{ w *World }

//go:norace
func (o *tap) Notify(f fact.Fact) {
	add(&Ev{Kind: evFact, W: o.w.id, Op: curOp(nil), H: -1, V: recFact(f)})
	yield()
}

func (w *testWorld) setup(wg *sync.WaitGroup) {
	w.wg = wg
	w.cur = &opInfo{w: w.World, op: -1}
	w.ctx = context.WithValue(context.Background(), opKey{}, w.cur)
	w.acts = make([]testkit.Action, len(w.sc.Acts))
	w.exps = make([]testkit.Expectation, len(w.sc.Exps))
	wg.Add(1)
	spawn(func() {
		defer wg.Done()
		w.main()
	})
}

func (w *testWorld) note(s string, v any) {
	add(&Ev{Kind: evNote, W: w.id, Op: curOp(nil), H: -1, S: s, V: v})
}

func (w *testWorld) main() {
	opts := []testkit.TestOption{testkit.WithUnsafeOperationOptions(engine.WithObserver(&tap{w.World}))}
	if w.sc.Start != nil {
		opts = append(opts, testkit.StartTimeAt(epoch.Add(w.app.span(*w.sc.Start))))
	}
	if w.sc.Icpt != "" {
		opts = append(opts, testkit.InterceptCommandExecutor(w.interceptor(-1, w.sc.Icpt)))
	}
	if w.sc.Cmp == "script" {
		opts = append(opts, testkit.WithMessageComparator(func(a, b dogma.Message) bool { return refOf(a).N == refOf(b).N }))
	}
	ctx := w.ctx
	cancel := func() {}
	if cut := w.sc.Cut; cut != nil {
		var f func()
		ctx, f = context.WithCancel(ctx)
		cancel = func() {
			add(&Ev{Kind: evCancel, W: w.id, Op: -2, H: -1})
			f()
			yield()
		}
		if cut.Step == 0 {
			w.wg.Add(1)
			spawn(func() {
				defer w.wg.Done()
				for i := 0; i < cut.Yields; i++ {
					runtime.SimPark(0)
				}
				sleep(time.Duration(cut.D) * time.Millisecond)
				cancel()
			})
		}
	}
	w.note("begin", nil)
	w.own = ctx
	w.t = testkit.BeginContext(ctx, &simT{w.World, w.sc.Stop}, app{w.World}, opts...)
	w.note("begun", nil)
	for i, s := range w.sc.Steps {
		yield()
		if w.sc.Cut != nil && w.sc.Cut.Step == i+1 {
			cancel()
		}
		if w.sc.Stop != "exit" {
			w.step(i, s)
			continue
		}
		done := make(chan struct{})
		go func() {
			defer runtime.SimWake()
			defer close(done)
			runtime.SimRegister()
			runtime.SimPark(0)
			w.step(i, s)
		}()
		<-done
		yield()
	}
}

// guard performs f as an operation, and records its outcome.
func (w *testWorld) guard(e Ev, adv bool, f func() error) {
	old := (*opInfo)(runtime.SimLocal())
	op := w.newOp(adv)
	setLocal(&opInfo{w: w.World, op: op})
	e.Kind, e.W, e.Op, e.H = evOpStart, w.id, op, -1
	add(&e)
	done := false
	defer func() {
		setLocal(old)
		e.Kind = evOpEnd
		if !done {
			e.V = recover()
			e.Out = outPanic
			if e.V == nil || e.V == any(testStop{}) {
				e.Out = outExit
			}
		}
		add(&e)
	}()
	if err := f(); err != nil {
		e.Out, e.V = outErr, err
	}
	done = true
}

func (w *testWorld) step(i int, s *StepSpec) {
	w.guard(Ev{S: s.Kind, N: int64(i), M: ref{K: -1}}, false, func() error {
		switch s.Kind {
		case "prepare":
			var as []testkit.Action
			for _, a := range s.Acts {
				as = append(as, &recAct{w.action(a), w, int64(a)})
			}
			w.t.Prepare(as...)
		case "expect":
			e := w.exps[s.Exp]
			if e == nil {
				e = w.expectation(w.sc.Exps[s.Exp], "")
				w.exps[s.Exp] = e
			}
			a := s.Acts[0]
			if s.Raw {
				// What happens in between is recorded as though it were done
				// by the action.
				w.performed(int64(a), func() error {
					w.t.Expect(w.action(a), e)
					return nil
				})
			} else {
				w.t.Expect(&recAct{w.action(a), w, int64(a)}, e)
			}
		case "enable", "disable":
			w.enable(s)
		case "annotate":
			w.t.Annotate(mkCmd(0, body{}), "<note>")
		case "sleep":
			sleep(time.Duration(s.D) * time.Millisecond)
		case "exec":
			w.exec(s.X)
		}
		return nil
	})
}

// enable enables or disables handlers.
func (w *testWorld) enable(s *StepSpec) {
	f := w.t.EnableHandlers
	switch {
	case s.Like && s.Kind == "enable":
		f = w.t.EnableHandlersLike
	case s.Like:
		f = w.t.DisableHandlersLike
	case s.Kind == "disable":
		f = w.t.DisableHandlers
	}
	f(s.Names...)
}

// recAct is an action that records when it is performed.
type recAct struct {
	testkit.Action
	w *testWorld
	i int64
}

func (a *recAct) Do(ctx context.Context, s testkit.ActionScope) (err error) {
	return a.w.performed(a.i, func() error { return a.Action.Do(ctx, s) })
}

// performed records that an action is performed by f.
func (w *testWorld) performed(a int64, f func() error) (err error) {
	k := w.sc.Acts[a].Kind
	old := (*opInfo)(runtime.SimLocal())
	e := Ev{Kind: evOpStart, W: w.id, Op: w.newOp(k == "by" || k == "to" || k == "adj"), H: -1, S: "act", N: a, M: ref{K: -1}}
	setLocal(&opInfo{w.World, e.Op, w.own, true})
	w.cur.op = e.Op
	add(&e)
	e.Kind, e.Out = evOpEnd, outExit
	defer func() {
		if err != nil {
			e.Out, e.V = outErr, err
		}
		add(&e)
		setLocal(old)
	}()
	err = f()
	e.Out = outOK
	return err
}

// adjustment is a user-defined adjustment of the clock.
type adjustment struct {
	w *testWorld
	d time.Duration
}

func (a adjustment) Description() string { return "<adjustment>" }
func (a adjustment) Step(t time.Time) time.Time {
	add(&Ev{Kind: evNote, W: a.w.id, Op: curOp(nil), H: -1, S: "clock", T: ns(t)})
	yield()
	return t.Add(a.d)
}

func (w *testWorld) action(i int) testkit.Action {
	if w.acts[i] == nil {
		w.acts[i] = w.mkAction(i, w.sc.Acts[i])
	}
	return w.acts[i]
}

func (w *testWorld) mkAction(i int, a *ActSpec) testkit.Action {
	d := w.app.span(a.D)
	switch a.Kind {
	case "cmd":
		return testkit.ExecuteCommand(mkCmd(a.T, body{N: a.N, Inst: a.I}))
	case "evt":
		return testkit.RecordEvent(mkEvt(a.T, body{N: a.N, Inst: a.I}))
	case "by":
		return testkit.AdvanceTime(testkit.ByDuration(d))
	case "to":
		return testkit.AdvanceTime(testkit.ToTime(zoned(epoch.Add(d), i)))
	case "adj":
		return testkit.AdvanceTime(adjustment{w, d})
	}
	f := func() { w.function(i, a) }
	if a.Icpt != "" {
		return testkit.Call(f, testkit.InterceptCommandExecutor(w.interceptor(i, a.Icpt)))
	}
	return testkit.Call(f)
}

// interceptor returns a command executor interceptor.
func (w *testWorld) interceptor(i int, mode string) testkit.CommandExecutorInterceptor {
	return func(ctx context.Context, m dogma.Command, e dogma.CommandExecutor) error {
		add(&Ev{Kind: evNote, W: w.id, Op: curOp(ctx), H: -1, S: "intercept", N: int64(i), M: refOf(m)})
		yield()
		switch mode {
		case "drop":
			return nil
		case "fail":
			return errors.New("<intercepted>")
		case "twice":
			if err := e.ExecuteCommand(ctx, m); err != nil {
				return err
			}
			yield()
		}
		return e.ExecuteCommand(ctx, m)
	}
}

// function is the function of a call action.
func (w *testWorld) function(i int, a *ActSpec) {
	e := Ev{Kind: evNote, W: w.id, Op: curOp(nil), H: -1, S: "fn{", N: int64(i)}
	add(&e)
	e.S = "fn}"
	defer func() { add(&e) }()
	var join []chan struct{}
	for n, g := range a.Gs {
		if n == 0 {
			continue
		}
		done := make(chan struct{})
		if !g.Esc {
			join = append(join, done)
		}
		w.wg.Add(1)
		spawn(func() {
			defer w.wg.Done()
			defer close(done)
			w.script(g)
		})
	}
	if len(a.Gs) > 0 {
		w.script(a.Gs[0])
	}
	for _, c := range join {
		<-c
		yield()
	}
}

func (w *testWorld) script(g *GSpec) {
	for i := range g.Steps {
		yield()
		switch s := &g.Steps[i]; s.Op {
		case "exec":
			w.exec(s)
		case "set":
			if s.Set != nil {
				w.set(s.Set)
			}
		case "yield":
			for k := 0; k <= s.D; k++ {
				runtime.SimPark(0)
			}
		case "sleep":
			sleep(time.Duration(s.D) * time.Millisecond)
		case "panic":
			v := newPanic("panic of the function", int32(i))
			w.note("fnpanic", v)
			panic(v)
		}
	}
}

// set enables or disables handlers from within a called function.
func (w *testWorld) set(s *StepSpec) {
	e := Ev{Kind: evNote, W: w.id, Op: curOp(nil), H: -1, S: "set", S2: s.key(), M: ref{K: -1}}
	defer func() {
		if v := recover(); v != nil {
			e.Out, e.V = outPanic, v
		}
		add(&e)
	}()
	w.enable(s)
}

// key identifies the selection that a step makes.
func (s *StepSpec) key() string {
	b, _ := json.Marshal(s)
	return string(b)
}

// exec executes a command through the test's executor.
func (w *testWorld) exec(s *XStep) {
	m := mkCmd(s.T, body{N: s.N, Inst: s.I})
	kind := s.Ctx
	if kind == "far" {
		kind = "" // it makes no difference
	}
	w.guard(Ev{S: "execute", M: refOf(m), S2: kind}, false, func() error {
		info := (*opInfo)(runtime.SimLocal())
		ctx := context.WithValue(context.Background(), opKey{}, info)
		switch s.Ctx {
		case "soon", "far":
			d := time.Duration(s.D) * time.Millisecond
			if s.Ctx == "far" {
				d = 100_000 * time.Hour
			}
			c, cancel := context.WithTimeout(ctx, d)
			defer cancel()
			ctx = c
		case "pre", "cancel":
			c, cancel := context.WithCancel(ctx)
			defer cancel()
			ctx = c
			if s.Ctx == "pre" {
				add(&Ev{Kind: evCancel, W: w.id, Op: info.op, H: -1})
				cancel()
			} else {
				w.wg.Add(1)
				spawn(func() {
					defer w.wg.Done()
					for k := 0; k < s.D; k++ {
						runtime.SimPark(0)
					}
					if c.Err() == nil {
						add(&Ev{Kind: evCancel, W: w.id, Op: info.op, H: -1})
					}
					cancel()
				})
			}
		}
		info.ctx = ctx
		return w.t.CommandExecutor().ExecuteCommand(ctx, m)
	})
}

// expectation builds an expectation.
func (w *testWorld) expectation(x *ExpSpec, path string) testkit.Expectation {
	e := w.mkExpectation(x, path)
	if x.Rec {
		return &recExp{e, w, path}
	}
	return e
}

func (w *testWorld) mkExpectation(x *ExpSpec, path string) testkit.Expectation {
	b := body{N: x.N, Inst: x.I}
	kids := func() []testkit.Expectation {
		var es []testkit.Expectation
		for i, k := range x.Kids {
			es = append(es, w.expectation(k, fmt.Sprintf("%s.%d", path, i)))
		}
		return es
	}
	switch x.Kind {
	case "cmd":
		return testkit.ToExecuteCommand(mkCmd(x.T, b))
	case "evt":
		return testkit.ToRecordEvent(mkEvt(x.T, b))
	case "cmdtype", "evttype", "cmdmatch", "evtmatch", "onlycmd", "onlyevt":
		return typedExpectation(w, x)
	case "sat":
		return testkit.ToSatisfy("<criteria>", func(t *testkit.SatisfyT) {
			var l []string
			for _, f := range t.Facts {
				l = append(l, factKey(recFact(f)))
			}
			add(&Ev{Kind: evNote, W: w.id, Op: curOp(nil), H: -1, S: "facts", S2: path, V: l, N: int64(len(l))})
			for _, s := range x.Sat {
				yield()
				switch s {
				case "log":
					t.Log("<log>")
				case "fail":
					t.Fail()
				case "error":
					t.Error("<error>")
				case "failnow":
					t.FailNow()
				case "fatal":
					t.Fatal("<fatal>")
				case "skip":
					t.Skip("<skip>")
				case "skipnow":
					t.SkipNow()
				}
			}
		})
	case "all":
		return testkit.AllOf(kids()...)
	case "any":
		return testkit.AnyOf(kids()...)
	case "none":
		return testkit.NoneOf(kids()...)
	case "not":
		return testkit.Not(kids()[0])
	}
	return testkit.ToRepeatedly("<repeat>", x.N, func(i int) testkit.Expectation {
		return w.expectation(x.Kids[i%len(x.Kids)], fmt.Sprintf("%s.r%d", path, i))
	})
}

// errNoMatch are the errors of matching functions, one of which reads like the
// one that ignores a message.
var errNoMatch = [...]error{
	errors.New("<no match>"),
	errors.New(testkit.IgnoreMessage.Error()),
	errors.New("<other>"),
}

// verdict is the result of a user-defined matching function.
func (x *ExpSpec) verdict(n int) byte {
	if n < len(x.Tab) {
		return x.Tab[n]
	}
	return 'f'
}

func (x *ExpSpec) match(m dogma.Message) error {
	yield()
	switch x.verdict(refOf(m).N) {
	case 'm':
		return nil
	case 'i':
		return testkit.IgnoreMessage
	}
	return errNoMatch[refOf(m).N%len(errNoMatch)]
}

func typedExpectation(w *testWorld, x *ExpSpec) testkit.Expectation {
	switch x.T {
	case 0:
		return typed[T0](x)
	case 1:
		return typedIs(x, &CmdP{}, &EvtP{})
	case 2:
		return typed[T2](x)
	case 3:
		return typed[T3](x)
	case 4:
		return typed[T4](x)
	case 5:
		return typed[T5](x)
	}
	return typedAs[dogma.Command, dogma.Event](x)
}

func typed[T any](x *ExpSpec) testkit.Expectation {
	return typedIs(x, Cmd[T]{}, Evt[T]{})
}

func typedIs[C dogma.Command, E dogma.Event](x *ExpSpec, c C, e E) testkit.Expectation {
	switch x.Kind {
	case "cmdtype":
		if x.Alt {
			return testkit.ToExecuteCommandOfType(c)
		}
		return testkit.ToExecuteCommandType[C]()
	case "evttype":
		if x.Alt {
			return testkit.ToRecordEventOfType(e)
		}
		return testkit.ToRecordEventType[E]()
	}
	return typedAs[C, E](x)
}

func typedAs[C dogma.Command, E dogma.Event](x *ExpSpec) testkit.Expectation {
	switch x.Kind {
	case "cmdmatch":
		return testkit.ToExecuteCommandMatching(func(m C) error { return x.match(m) })
	case "evtmatch":
		return testkit.ToRecordEventMatching(func(m E) error { return x.match(m) })
	case "onlycmd":
		return testkit.ToOnlyExecuteCommandsMatching(func(m C) error { return x.match(m) })
	}
	return testkit.ToOnlyRecordEventsMatching(func(m E) error { return x.match(m) })
}

// recExp records what an expectation observes and decides.
type recExp struct {
	testkit.Expectation
	w    *testWorld
	path string
}

func (e *recExp) Predicate(s testkit.PredicateScope) (testkit.Predicate, error) {
	p, err := e.Expectation.Predicate(s)
	if err != nil {
		return nil, err
	}
	return &recPred{Predicate: p, e: e}, nil
}

type recPred struct {
	testkit.Predicate
	e    *recExp
	n    int
	done int
}

func (p *recPred) Notify(f fact.Fact) {
	p.n++
	p.Predicate.Notify(f)
}

func (p *recPred) Done() {
	p.done++
	p.Predicate.Done()
	add(&Ev{Kind: evNote, W: p.e.w.id, Op: curOp(nil), H: -1, S: "part", S2: p.e.path, OK: p.Predicate.Ok(), N: int64(p.n), Call: int32(p.done)})
}

// likeNames returns the names of the handlers that patterns select, or false if
// one of them selects none.
func (a *AppSpec) likeNames(patterns []string) ([]string, bool) {
	var l []string
	for _, p := range patterns {
		re := regexp.MustCompile(p)
		any := false
		for _, h := range a.Handlers {
			if !h.Off && re.MatchString(h.Name) {
				l = append(l, h.Name)
				any = true
			}
		}
		if !any {
			return nil, false
		}
	}
	return l, true
}
