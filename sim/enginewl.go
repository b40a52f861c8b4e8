package main

import (
	"context"
	"errors"
	"runtime"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/testkit/engine"
)

// EnOpt is an option that enables or disables handlers for one operation.
type EnOpt struct {
	Kind string `json:",omitempty"` // handler type, or
	H    int    `json:",omitempty"` // index of the handler
	On   bool
}

// OpSpec is an operation performed by a client of the engine.
type OpSpec struct {
	Kind string // dispatch, tick, reset, run
	K    int    `json:",omitempty"` // kind of message
	T    int    `json:",omitempty"` // type of message
	N    int    `json:",omitempty"` // script
	I    string `json:",omitempty"` // instance
	Bad  string `json:",omitempty"` // "", invalid, unrouted, badopt

	Wait int     `json:",omitempty"` // milliseconds to wait before the operation
	Now  *int    `json:",omitempty"` // engine time, in units since the epoch
	En   []EnOpt `json:",omitempty"`
	Obs  int     `json:",omitempty"` // number of observers

	ObsPanic int `json:",omitempty"` // fact at which the first observer panics

	// Ctx determines how the context ends: "" (never), pre (before the
	// operation), deadline (after Ms), cancel (by another task, Yields
	// scheduling decisions and Ms milliseconds after the operation begins).
	Ctx    string `json:",omitempty"`
	Ms     int    `json:",omitempty"`
	Yields int    `json:",omitempty"`

	// For run.
	Interval int     `json:",omitempty"`
	Nanos    int     `json:",omitempty"` // added to the interval unless it is zero
	Factor   float64 `json:",omitempty"` // zero means engine.Run(), unless Scaled
	Scaled   bool    `json:",omitempty"`
	Epoch    *int    `json:",omitempty"`
}

// EngineScen is an engine, its application, and its clients.
type EngineScen struct {
	App     AppSpec
	Compact bool // compaction during handling
	Hooks   int  // number of reset hooks
	Clients [][]OpSpec
}

type engineWorld struct {
	*World
	sc     *EngineScen
	e      *engine.Engine
	ops    []*OpSpec
	first  []int32 // first operation of each client
	info   []*opInfo
	ctx    []context.Context
	start  []chan struct{}
	ids    []int // task performing each operation
	retd   []bool
	needGo bool

	firstID string // ID of the first message dispatched by any new engine
}

func newEngineWorld(id int32, sc *EngineScen) *engineWorld {
	w := &engineWorld{World: newWorld(id, &sc.App), sc: sc}
	w.compactOn = sc.Compact
	for i := range sc.Clients {
		w.first = append(w.first, int32(len(w.ops)))
		for j := range sc.Clients[i] {
			w.ops = append(w.ops, &sc.Clients[i][j])
		}
	}
	w.dispatching = func(op int32) bool { return op >= 0 && w.ops[op].Kind == "dispatch" }
	w.ids = make([]int, len(w.ops))
	w.retd = make([]bool, len(w.ops))
	w.needGo = usesExit(&sc.App)
	return w
}

func usesExit(a *AppSpec) bool {
	is := func(ss []Step) bool {
		for _, s := range ss {
			if s.Op == "exit" {
				return true
			}
		}
		return false
	}
	for _, h := range a.Handlers {
		for _, f := range h.Faults {
			if f.Kind == "exit" {
				return true
			}
		}
		for _, p := range h.Progs {
			if p.Route == "exit" || is(p.Steps) {
				return true
			}
		}
		for _, c := range h.Cmp {
			if is(c) {
				return true
			}
		}
	}
	return false
}

// setup builds the engine and starts the clients. It runs in the bubble.
func (w *engineWorld) setup(wg *sync.WaitGroup) {
	opts := []engine.Option{engine.EnableProjectionCompactionDuringHandling(w.sc.Compact)}
	for i := 0; i < w.sc.Hooks; i++ {
		opts = append(opts, engine.WithResetter(func() { w.hook(i) }))
	}
	w.e = engine.MustNew(configkit.FromApplication(app{w.World}), opts...)
	for i, o := range w.ops {
		info := &opInfo{w: w.World, op: int32(i)}
		w.info = append(w.info, info)
		ctx := context.WithValue(context.Background(), opKey{}, info)
		ctx, cause := context.WithCancelCause(ctx)
		cancel := func() {
			// Only some have a cause.
			if i%2 == 0 {
				cause(nil)
			} else {
				cause(errCause)
			}
		}
		w.ctx = append(w.ctx, ctx)
		w.cancel = append(w.cancel, cancel)
		w.start = append(w.start, make(chan struct{}))
		if o.Ctx == "pre" {
			add(&Ev{Kind: evCancel, W: w.id, Op: int32(i), H: -1})
			cancel()
		}
	}
	for c := range w.sc.Clients {
		wg.Add(1)
		spawn(func() {
			defer wg.Done()
			w.client(c)
		})
	}
	for i, o := range w.ops {
		if o.Ctx == "cancel" {
			wg.Add(1)
			spawn(func() {
				defer wg.Done()
				w.canceller(int32(i), o)
			})
		}
	}
}

// errCause is the cause of the end of some contexts. It is not their error.
var errCause = errors.New("<cause>")

func (w *engineWorld) canceller(i int32, o *OpSpec) {
	<-w.start[i]
	runtime.SimPark(0)
	for k := 0; k < o.Yields; k++ {
		runtime.SimPark(0)
	}
	sleep(time.Duration(o.Ms) * time.Millisecond)
	if w.returned(i) {
		return
	}
	add(&Ev{Kind: evCancel, W: w.id, Op: i, H: -1, OK: w.blocked(i)})
	w.cancel[i]()
}

//go:norace
func (w *engineWorld) blocked(i int32) bool {
	return w.ids[i] != 0 && runtime.SimBlocked(w.ids[i])
}

//go:norace
func (w *engineWorld) returned(i int32) bool { return w.retd[i] }

//go:norace
func (w *engineWorld) setReturned(i int32) { w.retd[i] = true }

//go:norace
func (w *engineWorld) setTask(i int32) { w.ids[i] = runtime.SimID() }

func (w *engineWorld) client(c int) {
	for j := range w.sc.Clients[c] {
		i := w.first[c] + int32(j)
		o := w.ops[i]
		yield()
		if o.Wait > 0 {
			sleep(time.Duration(o.Wait) * time.Millisecond)
		}
		if !w.needGo {
			w.perform(i, o)
			continue
		}
		// The application may end the goroutine.
		done := make(chan struct{})
		go func() {
			defer runtime.SimWake()
			defer close(done)
			runtime.SimRegister()
			runtime.SimPark(0)
			w.perform(i, o)
		}()
		<-done
		yield()
	}
}

// perform performs an operation, and records its outcome.
func (w *engineWorld) perform(i int32, o *OpSpec) {
	setLocal(w.info[i])
	defer setLocal(nil)
	w.setTask(i)

	ctx := w.ctx[i]
	if o.Ctx == "deadline" {
		var cancel context.CancelFunc
		if i%2 == 0 {
			ctx, cancel = context.WithTimeout(ctx, time.Duration(o.Ms)*time.Millisecond)
		} else {
			ctx, cancel = context.WithTimeoutCause(ctx, time.Duration(o.Ms)*time.Millisecond, errCause)
		}
		defer cancel()
	}
	w.info[i].ctx = ctx

	e := Ev{Kind: evOpStart, W: w.id, Op: i, H: -1, S: o.Kind, M: ref{K: -1}}
	var m dogma.Message
	if o.Kind == "dispatch" {
		b := w.tagged(o.K, o.T, body{N: o.N, Inst: o.I, Bad: o.Bad == "invalid"})
		if o.K == kCmd {
			m = mkCmd(o.T, b)
		} else {
			m = mkEvt(o.T, b)
		}
		e.M = refOf(m)
	}
	add(&e)
	close(w.start[i])
	yield()

	ok := false
	defer func() {
		w.setReturned(i)
		e.Kind = evOpEnd
		if !ok {
			if v := recover(); v != nil {
				e.Out = outPanic
				e.V = v
			} else {
				e.Out = outExit
			}
		}
		add(&e)
	}()

	err := w.invoke(ctx, i, o, m)
	if err != nil {
		e.Out = outErr
		e.V = err
	}
	ok = true
}

func (w *engineWorld) invoke(ctx context.Context, i int32, o *OpSpec, m dogma.Message) error {
	opts := w.options(i, o)
	switch o.Kind {
	case "dispatch":
		if c, ok := m.(dogma.Command); ok && o.Obs%2 == 1 {
			return engine.CommandExecutor{Engine: w.e, Options: opts}.ExecuteCommand(ctx, c)
		}
		return w.e.Dispatch(ctx, m, opts...)
	case "tick":
		return w.e.Tick(ctx, opts...)
	case "run":
		d := time.Duration(o.interval())
		if o.Factor == 0 && !o.Scaled {
			return engine.Run(ctx, w.e, d, opts...)
		}
		var t time.Time
		if o.Epoch != nil {
			t = epoch.Add(time.Duration(*o.Epoch) * time.Millisecond)
		}
		return engine.RunTimeScaled(ctx, w.e, d, o.Factor, t, opts...)
	case "reset":
		w.e.Reset()
	}
	return nil
}

// interval returns the interval between ticks in nanoseconds.
func (o *OpSpec) interval() int64 {
	if o.Interval == 0 {
		return 0
	}
	return int64(o.Interval)*1e6 + int64(o.Nanos)
}

func (w *engineWorld) options(i int32, o *OpSpec) []engine.OperationOption {
	var opts []engine.OperationOption
	if o.Now != nil {
		opts = append(opts, engine.WithCurrentTime(zoned(epoch.Add(w.app.span(*o.Now)), int(i))))
	}
	for k := 0; k < o.Obs; k++ {
		ob := &observer{w: w.World, op: i, i: int32(k)}
		if k == 0 {
			ob.panicAt = o.ObsPanic
		}
		opts = append(opts, engine.WithObserver(ob))
	}
	for _, x := range o.En {
		switch x.Kind {
		case hAgg:
			opts = append(opts, engine.EnableAggregates(x.On))
		case hProc:
			opts = append(opts, engine.EnableProcesses(x.On))
		case hIntg:
			opts = append(opts, engine.EnableIntegrations(x.On))
		case hProj:
			opts = append(opts, engine.EnableProjections(x.On))
		default:
			opts = append(opts, engine.EnableHandler(w.app.Handlers[x.H].Name, x.On))
		}
	}
	if o.Bad == "badopt" {
		opts = append(opts, engine.EnableHandler("<unknown>", true))
	}
	return opts
}

// hook is called by the engine when it is reset. The first hook clears the
// projections, as an application under test would.
func (w *engineWorld) hook(i int) {
	e := Ev{Kind: evHook, W: w.id, Op: curOp(nil), H: -1, N: int64(i)}
	add(&e)
	yield()
	if i == 0 {
		for _, h := range w.hs {
			clear(h.versions)
		}
	}
	yield()
	e.Kind = evHookEnd
	add(&e)
}

// enabled is the documented rule for whether a handler takes part.
func (o *OpSpec) enabled(a *AppSpec, h int) (bool, string) {
	spec := a.Handlers[h]
	named, name := false, false
	typed := true
	for _, x := range o.En {
		if x.Kind == "" {
			if x.H == h {
				named, name = true, x.On
			}
		} else if x.Kind == spec.Kind {
			typed = x.On
		}
	}
	if named {
		return name, "name"
	}
	if spec.Off {
		return false, "config"
	}
	return typed, "type"
}
