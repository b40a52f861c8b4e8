package main

import (
	"context"
	"fmt"
	"runtime"
	"time"

	"github.com/dogmatiq/dogma"
)

// Handler kinds.
const (
	hAgg  = "aggregate"
	hProc = "process"
	hIntg = "integration"
	hProj = "projection"
)

// HSpec describes a handler of the simulated application.
type HSpec struct {
	Kind   string
	Name   string
	In     []int       // types of the commands or events consumed
	Out    []int       `json:",omitempty"` // types of the events or commands produced
	Tmo    []int       `json:",omitempty"` // types of the timeouts scheduled
	Off    bool        `json:",omitempty"` // disabled by its configuration
	Plain  bool        `json:",omitempty"` // process without state
	Faults []Fault     `json:",omitempty"`
	Cmp    [][]Step    `json:",omitempty"` // scripts for calls to Compact, in turn
	Progs  map[int]Prg `json:",omitempty"` // scripts by message N
}

// Fault makes the nth call (from one) of a method fail.
type Fault struct {
	Meth method
	Nth  int
	Kind string // err, panic, unexp, exit, nil, version
}

// Prg is what a handler does with a message.
type Prg struct {
	Route string `json:",omitempty"` // "", ignore, err, panic, unexp, empty, exit
	Steps []Step `json:",omitempty"`
	NotOK bool   `json:",omitempty"` // projection reports that it did not apply the event
	Meet  bool   `json:",omitempty"` // projection waits to see its compaction run in parallel
}

// Step is a single action of a handler.
type Step struct {
	Op    string
	T     int    `json:",omitempty"`
	N     int    `json:",omitempty"`
	I     string `json:",omitempty"`
	D     int    `json:",omitempty"` // milliseconds
	Catch bool   `json:",omitempty"` // recover from a panic of the scope
}

// World is one engine or test together with the application it runs.
type World struct {
	id     int32
	app    *AppSpec
	hs     []*hdl
	budget int
	cancel []context.CancelFunc
	noTags bool

	compactOn   bool             // compaction during handling is enabled
	dispatching func(int32) bool // whether an operation dispatches a message
}

// AppSpec describes the simulated application.
type AppSpec struct {
	Handlers []*HSpec
	Types    map[string]int `json:",omitempty"`
	Twins    bool           `json:",omitempty"` // commands and events with equal content are equal
	Budget   int            `json:",omitempty"` // number of messages that handlers produce; 120 if zero
	Unit     int64          `json:",omitempty"` // of engine times, in nanoseconds; milliseconds if zero
}

// span returns the duration of n units of engine time.
func (a *AppSpec) span(n int) time.Duration {
	if a.Unit == 0 {
		return time.Duration(n) * time.Millisecond
	}
	return time.Duration(n) * time.Duration(a.Unit)
}

// due returns the time that is n time units after base, or, for the extremes, a
// time that is thousands of years away.
func (a *AppSpec) due(base time.Time, n, k int) time.Time {
	switch n {
	case farFuture:
		return time.Date(9000, 1, 1+k, 12, 0, 0, 0, time.UTC)
	case farPast:
		return time.Date(2, 1, 1+k, 12, 0, 0, 0, time.UTC)
	}
	return base.Add(a.span(n))
}

const (
	farFuture = 1 << 50
	farPast   = -1 << 50
)

var east = time.FixedZone("east", 5*3600+1800)

// odd decides whether the other results of a method that fails are set.
func odd(n int) bool { return n%2 == 1 }

// zoned returns t, for odd n in another time zone.
func zoned(t time.Time, n int) time.Time {
	if n%2 == 1 {
		return t.In(east)
	}
	return t
}

func newWorld(id int32, app *AppSpec) *World {
	w := &World{id: id, app: app, budget: app.Budget}
	if w.budget <= 0 {
		w.budget = 120
	}
	for i, s := range app.Handlers {
		w.hs = append(w.hs, &hdl{w: w, i: int32(i), s: s, count: map[method]int{}, versions: map[string]string{}})
	}
	return w
}

// tagged returns the body of a new message with its tag.
func (w *World) tagged(k, t int, b body) body {
	switch {
	case w.noTags:
	case w.app.Twins && k != kTmo:
		b.Tag = uint64(k*100+t*10+b.N) + 1
		for _, c := range b.Inst {
			b.Tag = b.Tag*1000 + uint64(c)
		}
	default:
		b.Tag = newTag()
	}
	return b
}

// hdl is the part common to all of the simulated handlers. Its fields are not
// synchronised, as those of an application's handlers need not be.
type hdl struct {
	w        *World
	i        int32
	s        *HSpec
	count    map[method]int
	versions map[string]string
	compacts int
	inHandle bool
	meet     [2]chan struct{}
}

// cstate is a call to a method of the application that is in progress.
type cstate struct {
	h    *hdl
	ev   Ev
	text string // log message about to be written
	done bool
	ctx  context.Context
}

type injected struct {
	what string
	id   int32
}

// String describes the value. Some look like dogma.UnexpectedMessage.
func (x *injected) String() string {
	if x.id%6 == 5 {
		return fmt.Sprint(dogma.UnexpectedMessage)
	}
	return fmt.Sprintf("<injected %s %d>", x.what, x.id)
}

// injectedErr is an injected panic with a value that is an error.
type injectedErr struct {
	injected
}

func (x *injectedErr) Error() string { return x.String() }

// newPanic returns a value to panic with.
func newPanic(what string, id int32) any {
	if id%3 == 1 {
		return &injectedErr{injected{what, id}}
	}
	return &injected{what, id}
}

func injectedPanic(v any) bool {
	switch v.(type) {
	case *injected, *injectedErr:
		return true
	}
	return false
}

type injErr struct {
	id int32
}

// judging is true while the model looks at errors.
var judging bool

// Is makes some errors look as if the end of a context caused them, as errors
// of the application may, except to the model.
func (e *injErr) Is(target error) bool {
	return !judging && (e.id%5 == 1 && target == context.Canceled || e.id%5 == 2 && target == context.DeadlineExceeded)
}

// Error describes the error. Several may have the same description.
func (e *injErr) Error() string {
	if e.id%4 == 3 {
		return "<injected error>"
	}
	return fmt.Sprintf("<injected error %d>", e.id)
}

// begin records the start of a call.
func (h *hdl) begin(ctx context.Context, m method, msg dogma.Message, fill func(*Ev)) *cstate {
	c := &cstate{h: h, ctx: ctx}
	c.ev = Ev{Kind: evCall, W: h.w.id, H: h.i, Meth: m, Call: newCall(), Op: curOp(ctx), M: ref{K: -1}, T: zeroNS}
	if msg != nil {
		c.ev.M = refOf(msg)
	}
	if o := (*opInfo)(runtime.SimLocal()); o != nil && o.w != h.w {
		add(&Ev{Kind: evNote, W: h.w.id, H: h.i, Op: c.ev.Op, S: "cross", N: int64(o.w.id)})
	}
	if fill != nil {
		fill(&c.ev)
	}
	add(&c.ev)
	yield()
	c.checkContext()
	return c
}

// checkContext records a note if the context of the call has not ended although
// that of the operation has, or the other way round. A compaction may be ended
// early.
func (c *cstate) checkContext() {
	if c.ctx == nil {
		return
	}
	o := opOf(c.ctx)
	if o == nil || o.ctx == nil {
		return
	}
	note := func(s string) {
		props := "C04 C19"
		if o.act {
			props = "C04 C20"
		}
		add(&Ev{Kind: evNote, W: c.h.w.id, H: c.h.i, Op: c.ev.Op, Call: c.ev.Call, S: "context", S2: props, V: s})
	}
	if o.ctx.Err() == nil {
		if c.ctx.Err() != nil && c.ev.Meth != mCompact {
			note("ended before")
		}
	} else if c.ctx.Err() == nil {
		sleep(time.Second)
		if c.ctx.Err() == nil {
			note("did not end with")
		}
	}
}

// end records the end of a call. It must be deferred.
func (c *cstate) end() {
	c.ev.Kind = evCallEnd
	c.ev.Root = nil
	if c.done {
		add(&c.ev)
		return
	}
	if v := recover(); v != nil {
		c.ev.Out = outPanic
		c.ev.V = v
		add(&c.ev)
		panic(v)
	}
	c.ev.Out = outExit
	add(&c.ev)
}

// ret notes the call's results.
func (c *cstate) ret(err error) {
	yield()
	c.checkContext()
	if err != nil {
		c.ev.Out = outErr
		c.ev.V = err
	}
	c.done = true
}

func (c *cstate) fault(kind string) error {
	switch kind {
	case "err":
		return &injErr{c.ev.Call}
	case "panic":
		panic(newPanic("panic", c.ev.Call))
	case "unexp":
		panic(dogma.UnexpectedMessage)
	case "exit":
		runtime.Goexit()
	}
	return nil
}

// nth counts a call, and returns the kind of fault it meets, if any.
func (h *hdl) nth(m method) string {
	h.count[m]++
	for _, f := range h.s.Faults {
		if f.Meth == m && f.Nth == h.count[m] {
			return f.Kind
		}
	}
	return ""
}

// act records the use of a scope method. catch recovers from its panic.
func (c *cstate) act(name string, m dogma.Message, t int64, catch bool, root func() []uint64, f func()) {
	e := Ev{Kind: evAct, W: c.h.w.id, H: c.h.i, Meth: c.ev.Meth, Call: c.ev.Call, Op: c.ev.Op, S: name, M: ref{K: -1}, T: t}
	if m != nil {
		e.M = refOf(m)
	}
	if name == "log" {
		e.S2 = c.text
	}
	add(&e)
	ok := false
	defer func() {
		e.Kind = evActEnd
		if root != nil {
			e.Root = root()
		}
		if ok {
			add(&e)
			return
		}
		v := recover()
		if v == nil {
			e.Out = outExit
			add(&e)
			return
		}
		e.V = v
		if catch && !injectedPanic(v) && v != any(dogma.UnexpectedMessage) {
			e.Out = outCaught
			add(&e)
			return
		}
		e.Out = outPanic
		add(&e)
		panic(v)
	}()
	yield()
	f()
	ok = true
}

// env gives a script access to the scope of the call it runs in.
type env struct {
	c       *cstate
	root    func() []uint64
	record  func(dogma.Event)
	exec    func(dogma.Command)
	sched   func(dogma.Timeout, time.Time)
	destroy func()
	end     func()
	log     func(string, ...any)
	mut     func(uint64)
	base    time.Time
}

// run executes a script.
func (e *env) run(steps []Step) error {
	c := e.c
	w := c.h.w
	for i, s := range steps {
		yield()
		switch s.Op {
		case "rec", "badrec", "norec":
			if e.record == nil || w.budget <= 0 {
				continue
			}
			w.budget--
			m := mkEvt(s.T, w.tagged(kEvt, s.T, body{N: s.N, Inst: s.I, Bad: s.Op == "badrec"}))
			c.act("record", m, zeroNS, s.Catch, e.root, func() { e.record(m) })
		case "exec", "badexec", "noexec":
			if e.exec == nil || w.budget <= 0 {
				continue
			}
			w.budget--
			m := mkCmd(s.T, w.tagged(kCmd, s.T, body{N: s.N, Inst: s.I, Bad: s.Op == "badexec"}))
			c.act("execute", m, zeroNS, s.Catch, nil, func() { e.exec(m) })
		case "sched", "badsched", "nosched":
			if e.sched == nil || w.budget <= 0 {
				continue
			}
			w.budget--
			due := zoned(w.app.due(e.base, s.D, w.budget), w.budget)
			m := mkTmo(s.T, w.tagged(kTmo, s.T, body{N: s.N, Bad: s.Op == "badsched"}))
			c.act("schedule", m, ns(due), s.Catch, nil, func() { e.sched(m, due) })
		case "destroy":
			if e.destroy != nil {
				c.act("destroy", nil, zeroNS, false, e.root, e.destroy)
			}
		case "end":
			if e.end != nil {
				c.act("end", nil, zeroNS, false, nil, e.end)
			}
		case "log":
			c.text = fmt.Sprintf("log %d.%d", c.ev.Call, i/4)
			c.act("log", nil, zeroNS, false, nil, func() { e.log("log %d.%d", c.ev.Call, i/4) })
		case "mut":
			if e.mut != nil {
				v := uint64(c.ev.Call)<<16 | uint64(i)
				add(&Ev{Kind: evNote, W: w.id, H: c.h.i, Op: c.ev.Op, Call: c.ev.Call, S: "mut", N: int64(v)})
				e.mut(v)
			}
		case "sleep":
			sleep(time.Duration(s.D) * time.Millisecond)
		case "yield":
			for j := 0; j < 1+s.D; j++ {
				yield()
			}
		case "cancel":
			if c.ev.Op >= 0 && int(c.ev.Op) < len(w.cancel) && w.cancel[c.ev.Op] != nil {
				add(&Ev{Kind: evCancel, W: w.id, Op: c.ev.Op, H: -1, N: -1})
				w.cancel[c.ev.Op]()
			}
		case "err":
			return c.fault("err")
		case "panic", "unexp", "exit":
			c.fault(s.Op)
		}
	}
	return nil
}

// aggregate

type aggH struct{ *hdl }

type aggRoot struct {
	h   *hdl
	Log []uint64
}

func (r *aggRoot) ApplyEvent(e dogma.Event) {
	c := r.h.begin(nil, mApply, e, nil)
	defer c.end()
	if f := r.h.nth(mApply); f != "" {
		c.fault(f)
	}
	r.Log = append(r.Log, refOf(e).Tag)
	c.ret(nil)
}

func snapshot(l []uint64) []uint64 { return append(make([]uint64, 0, len(l)+1), l...) }

func (h aggH) Configure(c dogma.AggregateConfigurer) {
	c.Identity(h.s.Name, uuidFor(h.i))
	var rs []dogma.AggregateRoute
	for _, t := range h.s.In {
		rs = append(rs, cmdRoute(t).handles)
	}
	for _, t := range h.s.Out {
		rs = append(rs, evtRoute(t).recordsA)
	}
	c.Routes(rs...)
	if h.s.Off {
		c.Disable()
	}
}

func (h aggH) New() dogma.AggregateRoot {
	c := h.begin(nil, mNew, nil, nil)
	defer c.end()
	f := ""
	if !h.inHandle {
		f = h.nth(mNew)
	}
	c.fault(f)
	if f == "nil" {
		c.ev.S = "nil"
		c.ret(nil)
		return nil
	}
	c.ret(nil)
	return &aggRoot{h: h.hdl}
}

func (h aggH) RouteCommandToInstance(m dogma.Command) string {
	c := h.begin(nil, mRoute, m, nil)
	defer c.end()
	h.inHandle = false
	p := h.s.Progs[c.ev.M.N]
	c.fault(p.Route)
	if p.Route == "empty" {
		c.ret(nil)
		return ""
	}
	c.ev.S = c.ev.M.Inst
	c.ret(nil)
	return c.ev.M.Inst
}

func (h aggH) HandleCommand(r dogma.AggregateRoot, s dogma.AggregateCommandScope, m dogma.Command) {
	root, _ := r.(*aggRoot)
	c := h.begin(nil, mCommand, m, func(e *Ev) {
		e.S = s.InstanceID()
		if root == nil {
			e.S2 = "nil root"
		} else {
			e.Root = snapshot(root.Log)
		}
	})
	defer c.end()
	h.count[mCommand]++
	h.inHandle = true
	defer func() { h.inHandle = false }()
	e := &env{
		c:       c,
		record:  s.RecordEvent,
		destroy: s.Destroy,
		log:     s.Log,
		root:    func() []uint64 { return snapshot(root.Log) },
	}
	e.run(h.s.Progs[c.ev.M.N].Steps)
	c.ret(nil)
}

// process

type procH struct{ *hdl }

type procRoot struct {
	Log []uint64 // first entry identifies the root
}

func (h procH) Configure(c dogma.ProcessConfigurer) {
	c.Identity(h.s.Name, uuidFor(h.i))
	var rs []dogma.ProcessRoute
	for _, t := range h.s.In {
		rs = append(rs, evtRoute(t).handlesP)
	}
	for _, t := range h.s.Out {
		rs = append(rs, cmdRoute(t).executes)
	}
	for _, t := range h.s.Tmo {
		rs = append(rs, tmoRoute(t))
	}
	c.Routes(rs...)
	if h.s.Off {
		c.Disable()
	}
}

func (h procH) New() dogma.ProcessRoot {
	c := h.begin(nil, mNew, nil, nil)
	defer c.end()
	f := h.nth(mNew)
	c.fault(f)
	if f == "nil" {
		c.ev.S = "nil"
		c.ret(nil)
		return nil
	}
	c.ev.N = int64(c.ev.Call)
	c.ret(nil)
	if h.s.Plain {
		return dogma.StatelessProcessRoot
	}
	return &procRoot{Log: []uint64{uint64(c.ev.Call)}}
}

func (h procH) RouteEventToInstance(ctx context.Context, m dogma.Event) (string, bool, error) {
	c := h.begin(ctx, mRoute, m, nil)
	defer c.end()
	h.count[mRoute]++
	p := h.s.Progs[c.ev.M.N]
	switch p.Route {
	case "ignore":
		c.ret(nil)
		return "", false, nil
	case "ignoreid":
		c.ret(nil)
		return c.ev.M.Inst, false, nil
	case "empty":
		c.ev.OK = true
		c.ret(nil)
		return "", true, nil
	}
	if err := c.fault(p.Route); err != nil {
		c.ret(err)
		if odd(c.ev.M.N) {
			return c.ev.M.Inst, true, err
		}
		return "", false, err
	}
	c.ev.OK = true
	c.ev.S = c.ev.M.Inst
	c.ret(nil)
	return c.ev.M.Inst, true, nil
}

func (h procH) HandleEvent(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessEventScope, m dogma.Event) error {
	return h.handle(ctx, mEvent, r, s, s.RecordedAt(), m)
}

func (h procH) HandleTimeout(ctx context.Context, r dogma.ProcessRoot, s dogma.ProcessTimeoutScope, m dogma.Timeout) error {
	return h.handle(ctx, mTimeout, r, s, s.ScheduledFor(), m)
}

type procScope interface {
	InstanceID() string
	End()
	ExecuteCommand(dogma.Command)
	ScheduleTimeout(dogma.Timeout, time.Time)
	Log(format string, args ...any)
}

func (h procH) handle(ctx context.Context, meth method, r dogma.ProcessRoot, s procScope, t time.Time, m dogma.Message) error {
	root, _ := r.(*procRoot)
	c := h.begin(ctx, meth, m, func(e *Ev) {
		e.S = s.InstanceID()
		e.T = ns(t)
		if h.s.Plain && r == dogma.StatelessProcessRoot {
			return
		}
		if root == nil {
			e.S2 = "nil root"
		} else {
			e.Root = snapshot(root.Log)
		}
	})
	defer c.end()
	h.count[meth]++
	e := &env{
		c:     c,
		exec:  s.ExecuteCommand,
		sched: s.ScheduleTimeout,
		end:   s.End,
		log:   s.Log,
		base:  t,
	}
	if root != nil {
		e.mut = func(v uint64) { root.Log = append(root.Log, v) }
	}
	err := e.run(h.s.Progs[c.ev.M.N].Steps)
	c.ret(err)
	return err
}

// integration

type intgH struct{ *hdl }

func (h intgH) Configure(c dogma.IntegrationConfigurer) {
	c.Identity(h.s.Name, uuidFor(h.i))
	var rs []dogma.IntegrationRoute
	for _, t := range h.s.In {
		rs = append(rs, cmdRoute(t).handlesI)
	}
	for _, t := range h.s.Out {
		rs = append(rs, evtRoute(t).recordsI)
	}
	c.Routes(rs...)
	if h.s.Off {
		c.Disable()
	}
}

func (h intgH) HandleCommand(ctx context.Context, s dogma.IntegrationCommandScope, m dogma.Command) error {
	c := h.begin(ctx, mCommand, m, nil)
	defer c.end()
	h.count[mCommand]++
	e := &env{c: c, record: s.RecordEvent, log: s.Log}
	err := e.run(h.s.Progs[c.ev.M.N].Steps)
	c.ret(err)
	return err
}

// projection

type projH struct{ *hdl }

func (h projH) Configure(c dogma.ProjectionConfigurer) {
	c.Identity(h.s.Name, uuidFor(h.i))
	var rs []dogma.ProjectionRoute
	for _, t := range h.s.In {
		rs = append(rs, evtRoute(t).handlesJ)
	}
	c.Routes(rs...)
	if h.s.Off {
		c.Disable()
	}
}

func (h projH) ResourceVersion(ctx context.Context, r []byte) ([]byte, error) {
	c := h.begin(ctx, mVersion, nil, func(e *Ev) { e.S = string(r) })
	defer c.end()
	h.meet = [2]chan struct{}{make(chan struct{}, 1), make(chan struct{}, 1)}
	f := h.nth(mVersion)
	if err := c.fault(f); err != nil {
		c.ret(err)
		if odd(h.count[mVersion]) {
			return []byte("v"), err
		}
		return nil, err
	}
	v := h.versions[string(r)]
	if f == "version" {
		v = "v"
	}
	c.ev.S2 = v
	c.ret(nil)
	if v == "" && !odd(h.count[mVersion]) {
		return nil, nil
	}
	return []byte(v), nil
}

func (h projH) HandleEvent(ctx context.Context, r, cur, n []byte, s dogma.ProjectionEventScope, m dogma.Event) (bool, error) {
	c := h.begin(ctx, mEvent, m, func(e *Ev) {
		e.S = string(r)
		e.S2 = fmt.Sprintf("%x/%x", cur, n)
		e.OK = len(cur) == 0 && len(n) != 0
		e.T = ns(s.RecordedAt())
	})
	defer c.end()
	h.count[mEvent]++
	p := h.s.Progs[c.ev.M.N]
	h.arrive(0)
	if p.Meet && h.w.compactOn {
		h.await(c, 1)
	}
	e := &env{c: c, log: s.Log}
	if err := e.run(p.Steps); err != nil {
		c.ev.OK = false
		c.ret(err)
		return odd(c.ev.M.N), err
	}
	c.ev.OK = !p.NotOK
	if c.ev.OK {
		h.versions[string(r)] = string(n)
	}
	c.ret(nil)
	return c.ev.OK, nil
}

func (h projH) CloseResource(ctx context.Context, r []byte) error {
	c := h.begin(ctx, mClose, nil, func(e *Ev) { e.S = string(r) })
	defer c.end()
	if err := c.fault(h.nth(mClose)); err != nil {
		c.ret(err)
		return err
	}
	delete(h.versions, string(r))
	c.ret(nil)
	return nil
}

// Compact may run in parallel with the other methods, so it touches only
// fields that they do not.
func (h projH) Compact(ctx context.Context, s dogma.ProjectionCompactScope) error {
	c := h.begin(ctx, mCompact, nil, func(e *Ev) { e.T = ns(s.Now()) })
	defer c.end()
	h.compacts++
	var steps []Step
	if n := len(h.s.Cmp); n != 0 {
		steps = h.s.Cmp[(h.compacts-1)%n]
	}
	h.arrive(1)
	if len(steps) > 0 && steps[0].Op == "meet" {
		if h.w.dispatching(c.ev.Op) {
			h.await(c, 0)
		}
		steps = steps[1:]
	}
	e := &env{c: c, log: s.Log}
	err := e.run(steps)
	c.ret(err)
	return err
}

// arrive notes that HandleEvent (0) or Compact (1) is in progress.
func (h projH) arrive(side int) {
	select {
	case h.meet[side] <- struct{}{}:
	default:
	}
}

// await waits for the other of HandleEvent and Compact to begin.
func (h projH) await(c *cstate, side int) {
	t := time.NewTimer(1000 * time.Hour)
	defer t.Stop()
	select {
	case <-h.meet[side]:
	case <-t.C:
		add(&Ev{Kind: evNote, W: h.w.id, H: h.i, Op: c.ev.Op, Call: c.ev.Call, S: "alone"})
	}
	yield()
}

func uuidFor(i int32) string {
	return fmt.Sprintf("00000000-0000-4000-8000-%012d", i+1)
}

// application

type app struct{ w *World }

func (a app) Configure(c dogma.ApplicationConfigurer) {
	c.Identity("<app>", "00000000-0000-4000-8000-0000000000ff")
	for i := range a.w.hs {
		switch x := a.w.handler(i).(type) {
		case dogma.AggregateMessageHandler:
			c.RegisterAggregate(x)
		case dogma.ProcessMessageHandler:
			c.RegisterProcess(x)
		case dogma.IntegrationMessageHandler:
			c.RegisterIntegration(x)
		case dogma.ProjectionMessageHandler:
			c.RegisterProjection(x)
		}
	}
}

func (w *World) handler(i int) any {
	h := w.hs[i]
	switch h.s.Kind {
	case hAgg:
		return aggH{h}
	case hProc:
		return procH{h}
	case hIntg:
		return intgH{h}
	}
	return projH{h}
}
