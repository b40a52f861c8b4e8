package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// factKey describes a fact without the parts of it that handlers may modify.
func factKey(f *factRec) string {
	c := *f
	c.Root, c.HasRoot = nil, false
	return c.String()
}

// actWin is the part of a history in which an action was performed.
type actWin struct {
	i          int // index of the action
	a          *ActSpec
	op         int32
	start, end int
	fn         [2]int // the called function
	out        outcome
	err        any
}

// execWin is the execution of a command by the test's executor.
type execWin struct {
	op         int32
	start, end int
	m          ref
	out        outcome
	v          any
	ctx        string
	first      int // first effect
	last       int // last effect
	icpts      []*Ev
	cycles     int // dispatch cycles begun
	calls      int
	win        *actWin // the call that it was part of
}

// stepWin is a call to a method of the test.
type stepWin struct {
	i          int
	s          *StepSpec
	start, end int
	out        outcome
	v          any
	acts       []*actWin
}

type testChecker struct {
	w      *testWorld
	sc     *TestScen
	evs    []Ev
	vs     []viol
	steps  []*stepWin
	execs  []*execWin
	byOp   map[int32]*execWin
	acts   []*actWin
	clock  int64
	range_ [2]int64 // of the clock, until it is known
	known  bool
	on     map[string]bool // settings by name
	cut    int             // cancellation of the test's context
	st     *stats
}

func (c *testChecker) fail(props string, at int, f string, args ...any) {
	if len(c.vs) < 20 {
		c.vs = append(c.vs, viol{props, fmt.Sprintf(f, args...), at})
	}
}

func (w *testWorld) check(evs []Ev, st *stats, r *runResult) {
	c := &testChecker{w: w, sc: w.sc, evs: evs, byOp: map[int32]*execWin{}, on: map[string]bool{}, cut: -1, st: st}
	c.collect()
	c.assignExecs()
	for _, s := range c.steps {
		c.step(s)
	}
	c.executor()
	r.viols = append(r.viols, c.vs...)
}

func (c *testChecker) mine(e *Ev) bool { return e.W == c.w.id && e.Kind != evStall }

// collect finds the parts of the history.
func (c *testChecker) collect() {
	n := len(c.evs)
	var step *stepWin
	openAct := map[int32]*actWin{}
	ops := map[int32]*stepWin{}
	effect := func(i int, e *Ev) *execWin {
		x := c.byOp[e.Op]
		if x != nil {
			if x.first < 0 {
				x.first = i
			}
			x.last = i
		}
		return x
	}
	for i := range c.evs {
		e := &c.evs[i]
		if !c.mine(e) {
			continue
		}
		switch e.Kind {
		case evOpStart:
			switch e.S {
			case "act":
				a := &actWin{i: int(e.N), a: c.sc.Acts[e.N], op: e.Op, start: i, end: n, fn: [2]int{-1, n}, out: outExit}
				openAct[e.Op] = a
				c.acts = append(c.acts, a)
				if step != nil {
					step.acts = append(step.acts, a)
				}
			case "execute":
				x := &execWin{op: e.Op, start: i, end: n, m: e.M, first: -1, last: -1, ctx: e.S2, out: outExit}
				c.execs = append(c.execs, x)
				c.byOp[e.Op] = x
			default:
				step = &stepWin{i: int(e.N), s: c.sc.Steps[e.N], start: i, end: n, out: outExit}
				c.steps = append(c.steps, step)
				ops[e.Op] = step
			}
		case evOpEnd:
			if a := openAct[e.Op]; a != nil {
				a.end, a.out, a.err = i, e.Out, e.V
			} else if x := c.byOp[e.Op]; x != nil {
				x.end, x.out, x.v = i, e.Out, e.V
			} else if s := ops[e.Op]; s != nil {
				s.end, s.out, s.v = i, e.Out, e.V
				step = nil
			}
		case evNote:
			switch e.S {
			case "begin":
				c.range_[0] = e.Sim
			case "begun":
				c.range_[1] = e.Sim
			case "fn{":
				if a := openAct[e.Op]; a != nil {
					a.fn[0] = i
				}
			case "fn}":
				if a := openAct[e.Op]; a != nil {
					a.fn[1] = i
				}
			case "intercept":
				if x := effect(i, e); x != nil {
					x.icpts = append(x.icpts, e)
				}
			}
		case evCall:
			if x := effect(i, e); x != nil {
				x.calls++
			}
		case evFact:
			if x := effect(i, e); x != nil && e.V.(*factRec).Type == "DispatchCycleBegun" {
				x.cycles++
			}
		case evCallEnd, evAct, evActEnd:
			effect(i, e)
		case evCancel:
			if e.Op == -2 {
				c.cut = i
			}
		}
	}
	if c.sc.Start != nil {
		c.clock, c.known = epochNS+int64(c.w.app.span(*c.sc.Start)), true
	}
}

// assignExecs finds the call that each execution was part of.
func (c *testChecker) assignExecs() {
	for _, x := range c.execs {
		for _, a := range c.acts {
			if a.a.Kind != "call" {
				continue
			}
			if x.first >= 0 && a.start < x.first && x.first < a.end {
				x.win = a
			}
			if x.first < 0 && a.fn[0] >= 0 && a.fn[0] < x.start && x.end < a.fn[1] {
				x.win = a
			}
		}
	}
}

// inCall returns the call during which event i happened.
func (c *testChecker) inAct(i int) *actWin {
	for _, a := range c.acts {
		if a.start < i && i < a.end {
			return a
		}
	}
	return nil
}

// executor checks the use of the test's command executor.
func (c *testChecker) executor() {
	for _, x := range c.execs {
		inj := injectedPanic(x.v)
		inside := x.win != nil && x.win.fn[0] >= 0 && x.win.fn[0] < x.start && x.end < x.win.fn[1]
		var overlaps bool // with any action
		for _, a := range c.acts {
			if a.a.Kind == "call" && a.start < x.end && x.start < a.end {
				overlaps = true
			}
		}
		if !overlaps {
			if x.first >= 0 {
				c.fail("C19", x.first, "a command executed outside of any called function had an effect")
			}
			if x.out != outPanic {
				c.fail("C19", x.end, "the command executor returned (%s) when used outside of any called function", x.out)
			}
			continue
		}
		if x.first < 0 && !inside {
			// Around the beginning or the end of a call, so it may or may not
			// have been rejected.
			if x.out != outPanic && x.ctx == "" {
				c.fail("C19", x.end, "the command executor returned (%s) without executing the command", x.out)
			}
			continue
		}
		a := x.win
		if a == nil {
			c.fail("C19", x.first, "a command executed through the test's executor had an effect outside of any called function")
			continue
		}
		if x.out == outPanic && !inj {
			c.fail("C19", x.end, "the command executor panicked within a called function: %v", x.v)
			continue
		}
		if x.last > a.end {
			c.fail("C19", a.end, "the action ended while the execution of %s was in progress", x.m)
		}
		if x.last > x.end {
			c.fail("C19", x.end, "the execution of %s returned before it had been handled", x.m)
		}
		want, mode := int64(-2), "pass"
		if c.sc.Icpt != "" {
			want, mode = -1, c.sc.Icpt
		}
		if a.a.Icpt != "" {
			want, mode = int64(a.i), a.a.Icpt
		}
		switch {
		case want == -2 && len(x.icpts) != 0:
			c.fail("C19", x.start, "the execution of %s was intercepted by %s, but its call has no interceptor", x.m, icptName(x.icpts[0].N))
			continue
		case want != -2 && len(x.icpts) == 0:
			c.fail("C19", x.start, "the execution of %s was not intercepted", x.m)
			continue
		case want != -2 && len(x.icpts) > 1:
			c.fail("C19", x.start, "the execution of %s was intercepted %d times", x.m, len(x.icpts))
			continue
		case want != -2 && x.icpts[0].N != want:
			c.fail("C19", x.start, "the execution of %s was intercepted by %s rather than %s", x.m, icptName(x.icpts[0].N), icptName(want))
			continue
		case want != -2 && x.icpts[0].M != x.m:
			c.fail("C19", x.start, "the interceptor was given %s rather than %s", x.icpts[0].M, x.m)
		}
		n := 1
		switch mode {
		case "drop", "fail":
			n = 0
		case "twice":
			n = 2
		}
		clean := x.out == outOK || mode == "fail"
		if x.ctx != "" && x.out != outOK {
			clean = false
		}
		if clean && x.cycles != n {
			c.fail("C19", x.start, "the execution of %s caused %d dispatch cycles rather than %d", x.m, x.cycles, n)
		}
		if x.cycles > n {
			c.fail("C19", x.start, "the execution of %s caused %d dispatch cycles rather than %d", x.m, x.cycles, n)
		}
		if mode == "fail" && (x.out != outErr || fmt.Sprint(x.v) != "<intercepted>") {
			c.fail("C19", x.end, "the execution of %s did not return the interceptor's error", x.m)
		}
		if x.out == outErr && mode != "fail" && !isCtxErr(x.v) && !c.injectedIn(x) {
			c.fail("C19", x.end, "the execution of %s failed, though no handler did: %v", x.m, x.v)
		}
		c.cancelled(x, mode)
		if x.out == outOK && c.injectedIn(x) {
			c.fail("C19", x.end, "the execution of %s succeeded, though a handler failed", x.m)
		}
	}
	// Application code runs only as part of actions.
	for i := range c.evs {
		e := &c.evs[i]
		if c.mine(e) && e.Kind == evCall && c.inAct(i) == nil {
			c.fail("C19 C16 C20 C21", i, "%s of %s was called while no action was being performed", e.Meth, c.sc.App.Handlers[e.H].Name)
		}
	}
	for _, a := range c.acts {
		if a.a.Kind == "call" && a.fn[0] >= 0 && a.out == outOK && a.end < a.fn[1] {
			c.fail("C19", a.end, "the action ended while the function was running")
		}
	}
}

// cancelled checks an execution of which the context ended.
func (c *testChecker) cancelled(x *execWin, mode string) {
	if mode != "pass" || x.out == outPanic || x.out == outExit {
		return
	}
	for i := range c.evs[:x.end] {
		e := &c.evs[i]
		if !c.mine(e) || e.Kind != evCancel || e.Op != x.op {
			continue
		}
		open, begun := 0, 0
		for j := x.start; j < x.end; j++ {
			switch e := &c.evs[j]; {
			case !c.mine(e) || e.Op != x.op:
			case e.Kind == evCall && j < i:
				open++
			case e.Kind == evCallEnd && j < i:
				open--
			case e.Kind == evFact && j > i && e.V.(*factRec).Type == "DispatchBegun":
				begun++
			}
		}
		if (open > 0 || x.ctx == "pre") && !isCtxErr(x.v) {
			c.fail("C04 C19", x.end, "the context of the execution of %s ended, but it returned %s %v", x.m, x.out, x.v)
		}
		if begun > 1 {
			c.fail("C04 C19", x.end, "the execution of %s went on to dispatch %d messages after its context ended", x.m, begun)
		}
	}
}

func icptName(n int64) string {
	if n < 0 {
		return "the test's interceptor"
	}
	return fmt.Sprintf("the interceptor of call %d", n)
}

// injectedIn returns true if the application reported an error during x.
func (c *testChecker) injectedIn(x *execWin) bool {
	for i := x.start; i < x.end && i < len(c.evs); i++ {
		e := &c.evs[i]
		if c.mine(e) && e.Kind == evCallEnd && e.Op == x.op && e.Out == outErr {
			return true
		}
	}
	return false
}

func (c *testChecker) enabled(h *HSpec) bool {
	if h.Off {
		return false
	}
	if v, ok := c.on[h.Name]; ok {
		return v
	}
	return h.Kind == hAgg || h.Kind == hProc
}

// roles tells how the application uses a message type, and whether that
// depends on handlers that are disabled.
func (a *AppSpec) roles(k, t int) (consumed, produced, unsure bool) {
	var c, p [2]bool
	for _, h := range a.Handlers {
		off := 0
		if h.Off {
			off = 1
		}
		in, out := kEvt, kCmd
		if h.Kind == hAgg || h.Kind == hIntg {
			in, out = kCmd, kEvt
		}
		if in == k && has(h.In, t) {
			c[off] = true
		}
		if out == k && has(h.Out, t) {
			p[off] = true
		}
		if k == kTmo && has(h.Tmo, t) {
			c[off], p[off] = true, true
		}
	}
	unsure = (c[1] || p[1]) && !(c[0] && p[0])
	return c[0] || c[1], p[0] || p[1], unsure
}

// kindOf returns the kind of message that a leaf is about.
func (x *ExpSpec) kindOf() int {
	if strings.HasPrefix(x.Kind, "cmd") || x.Kind == "onlycmd" {
		return kCmd
	}
	return kEvt
}

// impossible returns true if a part of the expectation is about a message that
// the action can never produce.
func (c *testChecker) impossible(x *ExpSpec, call bool) (yes, unsure bool) {
	switch x.Kind {
	case "sat":
		return false, false
	case "all", "any", "none", "not", "rep":
		kids := x.Kids
		if x.Kind == "rep" && x.N < len(kids) {
			kids = kids[:x.N]
		}
		for _, k := range kids {
			y, u := c.impossible(k, call)
			yes, unsure = yes || y, unsure || u
		}
		return yes, unsure
	}
	if x.T < 0 {
		return false, false
	}
	con, pro, uns := c.sc.App.roles(x.kindOf(), x.T)
	if call {
		return !con && !pro, uns
	}
	return !pro, uns
}

// leaf returns the verdict of a simple expectation.
func (c *testChecker) leaf(x *ExpSpec, made []ref) bool {
	k := x.kindOf()
	switch x.Kind {
	case "sat":
		failed := false
		for _, s := range x.Sat {
			switch s {
			case "fail", "error":
				failed = true
			case "failnow", "fatal":
				return false
			case "skip", "skipnow":
				return true
			}
		}
		return !failed
	case "onlycmd", "onlyevt":
		for _, m := range made {
			if m.K != k {
				continue
			}
			if x.T >= 0 && m.T != x.T || x.verdict(m.N) == 'f' {
				return false
			}
		}
		return true
	}
	for _, m := range made {
		if m.K != k || x.T >= 0 && m.T != x.T {
			continue
		}
		switch x.Kind {
		case "cmd", "evt":
			if m.N == x.N && (m.Inst == x.I || c.sc.Cmp == "script") {
				return true
			}
		case "cmdtype", "evttype":
			return true
		default:
			if x.verdict(m.N) == 'm' {
				return true
			}
		}
	}
	return false
}

// tree combines verdicts.
func (x *ExpSpec) tree(path string, leaf func(*ExpSpec, string) bool, node func(*ExpSpec, string, bool)) bool {
	if len(x.Kids) == 0 {
		return leaf(x, path)
	}
	n, pass := len(x.Kids), 0
	if x.Kind == "rep" {
		n = x.N
	}
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("%s.%d", path, i)
		if x.Kind == "rep" {
			p = fmt.Sprintf("%s.r%d", path, i)
		}
		if x.Kids[i%len(x.Kids)].tree(p, leaf, node) {
			pass++
		}
	}
	v := false
	switch x.Kind {
	case "all", "rep":
		v = pass == n
	case "any":
		v = pass > 0
	case "none", "not":
		v = pass == 0
	}
	if node != nil {
		node(x, path, v)
	}
	return v
}

// window is what happened while an action was performed.
type window struct {
	facts   []int
	calls   []int
	made    []ref
	errs    []any
	panics  []any
	strict  bool // errs includes one that certainly fails the operation
	cancel  bool
	fnPanic bool
	cut     bool // the context of the test ended before the end of the action
}

func (c *testChecker) window(start, end int) *window {
	w := &window{}
	for i := start + 1; i < end && i < len(c.evs); i++ {
		e := &c.evs[i]
		if !c.mine(e) {
			continue
		}
		switch e.Kind {
		case evFact:
			w.facts = append(w.facts, i)
		case evCall:
			w.calls = append(w.calls, i)
		case evCallEnd:
			switch e.Out {
			case outErr:
				w.errs = append(w.errs, e.V)
				w.strict = w.strict || e.Meth == mRoute || e.Meth == mCommand || e.Meth == mEvent || e.Meth == mTimeout || e.Meth == mVersion
			case outPanic:
				w.panics = append(w.panics, e.V)
			}
		case evActEnd:
			if e.Out == outOK && (e.S == "record" || e.S == "execute") {
				w.made = append(w.made, e.M)
			}
		case evNote:
			if e.S == "fnpanic" {
				w.fnPanic = true
			}
		}
	}
	w.cut = c.cut >= 0 && c.cut < end
	for _, x := range c.execs {
		if x.start < end && start < x.end && (x.ctx != "" && x.out != outOK) {
			w.cancel = true
		}
	}
	return w
}

// verify checks what holds whenever an action is performed, and returns the
// window.
func (c *testChecker) act(a *actWin) *window {
	w := c.action(a)
	c.sets(a)
	return w
}

// sets applies what a called function enabled or disabled, which is so from
// the next action on.
func (c *testChecker) sets(a *actWin) {
	for i := a.start; i < a.end && i < len(c.evs); i++ {
		if e := &c.evs[i]; c.mine(e) && e.Kind == evNote && e.S == "set" {
			var s StepSpec
			if json.Unmarshal([]byte(e.S2), &s) == nil {
				c.enable(&s, i, e.Out)
			}
		}
	}
}

// fatalIn returns true if the test failed between two events.
func (c *testChecker) fatalIn(start, end int) bool {
	for i := start; i < end; i++ {
		if e := &c.evs[i]; c.mine(e) && e.Kind == evNote && (e.S == "fatal" || e.S == "failnow") {
			return true
		}
	}
	return false
}

func (c *testChecker) action(a *actWin) *window {
	w := c.window(a.start, a.end)
	if a.a.Kind == "call" {
		for _, x := range c.execs {
			if x.win == a {
				for j := 0; j < x.cycles; j++ {
					w.made = append(w.made, x.m)
				}
			}
		}
	}
	if a.a.Kind != "call" && a.out == outOK && a.err == nil && c.cut >= 0 && c.cut < a.start && len(w.calls) > 0 && !c.fatalIn(a.start, a.end) {
		c.fail("C20", a.end, "the action succeeded although the test's context had ended")
	}
	adv := a.a.Kind == "by" || a.a.Kind == "to" || a.a.Kind == "adj"
	now := c.clock
	for i := a.start; i < a.end && i < len(c.evs); i++ {
		if e := &c.evs[i]; c.mine(e) && e.Kind == evNote && e.S == "clock" {
			c.sees(e.T, i, "the clock given to the adjustment")
			now = c.clock
		}
	}
	if adv {
		if !c.known && a.a.Kind != "to" {
			// The new time is the first thing that is known about the clock.
			for _, i := range w.facts {
				if f := c.evs[i].V.(*factRec); f.Type == "TickCycleBegun" {
					c.sees(f.Now-int64(c.w.app.span(a.a.D)), i, "the time of the test")
					break
				}
			}
			now = c.clock
			if !c.known {
				// The engine was not ticked.
				if a.a.D >= 0 {
					if !w.cut {
						c.fail("C16", a.end, "advancing time did not tick the engine")
					}
					c.range_[0] += int64(c.w.app.span(a.a.D))
					c.range_[1] += int64(c.w.app.span(a.a.D))
					return w
				}
			}
		}
		next := now + int64(c.w.app.span(a.a.D))
		back := a.a.D < 0
		if a.a.Kind == "to" {
			next = epochNS + int64(c.w.app.span(a.a.D))
			back = next < now
			if !c.known {
				if next < c.range_[0] {
					back = true
				} else if next >= c.range_[1] {
					back = false
				} else {
					// Too close to tell, except by what happened.
					back = true
					for _, i := range w.facts {
						back = back && c.evs[i].V.(*factRec).Type != "TickCycleBegun"
					}
				}
			}
		}
		if back {
			if len(w.facts)+len(w.calls) != 0 {
				c.fail("C16", a.start, "an adjustment that reverses time was performed")
			}
			if a.out == outOK && a.err == nil && !c.rawStep(a) {
				c.fail("C16 C20", a.end, "an adjustment that reverses time succeeded")
			}
			w.errs = append(w.errs, "reverse")
			w.strict = true
			return w
		}
		c.clock, c.known = next, true
		ticks := 0
		for _, i := range w.facts {
			switch f := c.evs[i].V.(*factRec); f.Type {
			case "TickCycleBegun":
				ticks++
			case "DispatchCycleBegun":
				c.fail("C16", i, "advancing time dispatched a message")
			}
		}
		if ticks != 1 && !w.cut {
			c.fail("C16", a.end, "advancing time ticked the engine %d times", ticks)
		}
		c.ticked(a, w)
	}
	for _, i := range w.facts {
		f := c.evs[i].V.(*factRec)
		switch f.Type {
		case "TickCycleBegun":
			if !adv {
				c.fail("C16", i, "an action other than advancing time ticked the engine")
			}
			c.sees(f.Now, i, "the engine time of the tick")
		case "DispatchCycleBegun":
			c.sees(f.Now, i, "the engine time of the dispatch")
		}
	}
	for _, i := range w.calls {
		e := &c.evs[i]
		h := c.sc.App.Handlers[e.H]
		if !c.enabled(h) {
			c.fail("C21", i, "%s of %s was called, but the handler is not enabled", e.Meth, h.Name)
		}
		if e.Meth == mEvent || e.Meth == mCompact {
			c.sees(e.T, i, "the time given to "+e.Meth.String())
		}
	}
	if len(w.errs)+len(w.panics) == 0 && !w.cancel && !w.fnPanic && !(w.cut && a.a.Kind != "call") {
		c.complete(a, w)
	}
	return w
}

func (c *testChecker) rawStep(a *actWin) bool {
	for _, s := range c.steps {
		for _, b := range s.acts {
			if a == b {
				return s.s.Kind == "expect" && s.s.Raw
			}
		}
	}
	return false
}

// sees checks an observation of the clock.
func (c *testChecker) sees(t int64, i int, what string) {
	if c.known {
		if t != c.clock {
			c.fail("C16", i, "%s is %s, but the clock is at %s", what, tns(t), tns(c.clock))
		}
		return
	}
	if t < c.range_[0] || t > c.range_[1] {
		c.fail("C16", i, "%s is %s, but the test began at %s", what, tns(t), tns(c.range_[0]))
	}
	c.clock, c.known = t, true
}

// ticked checks which handlers were ticked.
func (c *testChecker) ticked(a *actWin, w *window) {
	if len(w.errs)+len(w.panics) != 0 || w.cut {
		return
	}
	n := map[string]int{}
	for _, i := range w.facts {
		if f := c.evs[i].V.(*factRec); f.Type == "TickBegun" {
			n[f.Handler]++
		}
	}
	for _, h := range c.sc.App.Handlers {
		want := 0
		if c.enabled(h) {
			want = 1
		}
		if n[h.Name] != want {
			c.fail("C21", a.end, "%s was ticked %d times rather than %d", h.Name, n[h.Name], want)
		}
	}
}

// complete checks that every message reached every enabled handler.
func (c *testChecker) complete(a *actWin, w *window) {
	type key struct {
		h int
		m ref
	}
	want, got := map[key]int{}, map[key]int{}
	msgs := append([]ref(nil), w.made...)
	if a.a.Kind == "cmd" || a.a.Kind == "evt" {
		if len(w.facts) == 0 {
			return
		}
		k := kCmd
		if a.a.Kind == "evt" {
			k = kEvt
		}
		msgs = append(msgs, ref{k, a.a.T, body{N: a.a.N, Inst: a.a.I}})
	}
	for _, m := range msgs {
		for i, h := range c.sc.App.Handlers {
			if consumes(h, m.K, m.T) && c.enabled(h) {
				want[key{i, m}]++
			}
		}
	}
	for _, i := range w.calls {
		e := &c.evs[i]
		k := c.sc.App.Handlers[e.H].Kind
		if e.Meth == mRoute || k == hIntg && e.Meth == mCommand || k == hProj && e.Meth == mEvent {
			got[key{int(e.H), e.M}]++
		}
	}
	for k, n := range want {
		if got[k] != n {
			c.fail("C21 C19", a.end, "%s received %s %d times rather than %d", c.sc.App.Handlers[k.h].Name, k.m, got[k], n)
		}
	}
	for k, n := range got {
		if want[k] == 0 {
			c.fail("C21 C19", a.end, "%s received %s %d times, but it was not produced", c.sc.App.Handlers[k.h].Name, k.m, n)
		}
	}
}

// recognised returns false if the action involves an unknown message type.
func (c *testChecker) recognised(a *ActSpec) bool {
	if a.Kind != "cmd" && a.Kind != "evt" {
		return true
	}
	k := kCmd
	if a.Kind == "evt" {
		k = kEvt
	}
	con, pro, _ := c.sc.App.roles(k, a.T)
	return con || pro
}

func (c *testChecker) step(s *stepWin) {
	var fatals []string
	failed := false
	for i := s.start; i < s.end && i < len(c.evs); i++ {
		e := &c.evs[i]
		if c.mine(e) && e.Kind == evNote && (e.S == "fatal" || e.S == "failnow") {
			failed = true
			if e.S == "fatal" {
				fatals = append(fatals, e.V.(string))
			}
		}
	}
	switch s.s.Kind {
	case "prepare":
		c.prepare(s, failed, fatals)
	case "expect":
		c.expect(s, failed, fatals)
	case "enable", "disable":
		c.enable(s.s, s.end, s.out)
	case "exec":
	default:
		if failed || s.out != outOK {
			c.fail("C20", s.end, "%s failed", s.s.Kind)
		}
	}
}

// mentions returns true if a failure includes the error of the action.
func mentions(fatals []string, errs []any) bool {
	for _, f := range fatals {
		for _, e := range errs {
			if e == any("reverse") || strings.Contains(f, fmt.Sprint(e)) {
				return true
			}
		}
	}
	return false
}

func (c *testChecker) prepare(s *stepWin, failed bool, fatals []string) {
	n := 0
	stopped := false
	anyErr := false
	for _, i := range s.s.Acts {
		if stopped {
			break
		}
		if n >= len(s.acts) {
			if !(anyErr && failed) && s.out != outPanic {
				c.fail("C20", s.end, "an action was not performed")
			}
			break
		}
		a := s.acts[n]
		n++
		if a.i != i {
			c.fail("C20", a.start, "the actions were performed out of order")
			return
		}
		w := c.act(a)
		switch {
		case !c.recognised(a.a):
			anyErr = true
			if len(w.calls) > 0 {
				c.fail("C20", w.calls[0], "application code ran for a message that is not recognised")
			}
		case len(w.panics) > 0 && a.a.Kind != "call" || w.fnPanic:
			stopped = true
		case a.err != nil:
			anyErr = true
			if !mentions(fatals, []any{a.err}) {
				c.fail("C20", s.end, "the failure does not include the action's error: %v", a.err)
			}
		case len(w.errs) > 0 && w.strict && a.a.Kind != "call":
			anyErr = true
			if !mentions(fatals, w.errs) && !(w.cut && mentions(fatals, []any{context.Canceled})) {
				c.fail("C20", s.end, "the failure does not include the error %v", w.errs[0])
			}
		}
		if anyErr && s.out == outExit {
			stopped = true
		}
	}
	if n < len(s.acts) && !stopped {
		c.fail("C20", s.acts[n].start, "an action was performed more often than asked for")
	}
	if stopped && s.out == outPanic {
		return
	}
	if anyErr && !failed {
		c.fail("C20", s.end, "an action failed, but the test did not")
	}
	if !anyErr && failed {
		c.fail("C20", s.end, "the test failed, though no action did: %v", fatals)
	}
	if s.out == outPanic && !stopped {
		c.fail("C20", s.end, "the test panicked: %v", s.v)
	}
}

func (c *testChecker) expect(s *stepWin, failed bool, fatals []string) {
	a := c.sc.Acts[s.s.Acts[0]]
	x := c.sc.Exps[s.s.Exp]
	imp, unsure := c.impossible(x, a.Kind == "call")
	if unsure {
		// Whether the type counts as one that the application produces is not
		// determined, but the other rules still apply to what happened.
		if w := c.window(s.start, s.end); failed && len(w.calls)+len(w.facts) == 0 {
			for _, w := range s.acts {
				c.sets(w)
			}
			return
		}
		for _, w := range s.acts {
			c.act(w)
		}
		return
	}
	if imp {
		c.count("impossible expectations")
		if !failed {
			c.fail("C20", s.end, "the expectation can never be met, but the test did not fail")
		}
		if w := c.window(s.start, s.end); len(w.calls)+len(w.facts) != 0 || !s.s.Raw && len(s.acts) != 0 {
			c.fail("C20", s.start, "the action was performed, though the expectation can never be met")
		}
		for _, w := range s.acts {
			if w.fn[0] >= 0 {
				c.fail("C20", w.fn[0], "the function was called, though the expectation can never be met")
			}
		}
		return
	}
	if len(s.acts) != 1 {
		c.fail("C20", s.end, "the action was performed %d times", len(s.acts))
		return
	}
	aw := s.acts[0]
	w := c.act(aw)
	if !c.recognised(a) {
		c.count("unrecognised messages")
		if !failed {
			c.fail("C20", s.end, "the action involves a message that is not recognised, but the test did not fail")
		}
		if len(w.calls) > 0 {
			c.fail("C20", w.calls[0], "application code ran for a message that is not recognised")
		}
		return
	}
	if w.fnPanic || len(w.panics) > 0 && a.Kind != "call" {
		if s.out != outPanic {
			c.fail("C20", s.end, "the panic was lost")
		}
		return
	}
	if s.out == outPanic {
		c.fail("C20", s.end, "the test panicked: %v", s.v)
		return
	}
	errs := w.errs
	if !s.s.Raw && aw.err != nil {
		errs = []any{aw.err}
		w.strict = true
	}
	if a.Kind != "call" && len(errs) > 0 {
		c.count("failed actions")
		if !w.strict && !failed {
			return
		}
		if !failed {
			p := "C20"
			if errs[0] == any("reverse") {
				p = "C16 C20"
			}
			c.fail(p, s.end, "the action failed (%v), but the test did not", errs[0])
		} else if !mentions(fatals, errs) && !(w.cut && mentions(fatals, []any{context.Canceled})) {
			c.fail("C20", s.end, "the failure does not include the error %v", errs[0])
		}
		return
	}
	if len(errs)+len(w.panics) > 0 || w.cancel || w.cut && a.Kind != "call" && s.s.Raw {
		return
	}
	c.verdict(s, aw, x, w, failed)
}

func (c *testChecker) count(s string) {
	if c.st != nil {
		c.st.Count[s]++
	}
}

// verdict checks whether the test failed exactly if the expectation was not
// met.
func (c *testChecker) verdict(s *stepWin, aw *actWin, x *ExpSpec, w *window, failed bool) {
	parts := map[string]*Ev{}
	var want []string
	concurrent := len(aw.a.Gs) > 1
	for _, i := range w.facts {
		want = append(want, factKey(c.evs[i].V.(*factRec)))
	}
	for i := s.start; i < s.end && i < len(c.evs); i++ {
		e := &c.evs[i]
		if !c.mine(e) || e.Kind != evNote {
			continue
		}
		switch e.S {
		case "part":
			if parts[e.S2] != nil || e.Call > 1 {
				c.fail("C18", i, "part %q of the expectation was told twice that the action is over", e.S2)
			}
			parts[e.S2] = e
			if int(e.N) != len(want) {
				c.fail("C18", i, "part %q of the expectation observed %d facts rather than %d", e.S2, e.N, len(want))
			}
		case "facts":
			got := e.V.([]string)
			l := want
			if concurrent {
				got, l = append([]string(nil), got...), append([]string(nil), l...)
				sort.Strings(got)
				sort.Strings(l)
			}
			if strings.Join(got, "\n") != strings.Join(l, "\n") {
				c.fail("C18", i, "the user-defined expectation was given %d facts that differ from the %d facts of the action: %s", len(got), len(l), firstDiff(got, l))
			}
		}
	}
	all := true
	seen := x.tree("", func(l *ExpSpec, path string) bool {
		v := c.leaf(l, w.made)
		p := "C17"
		if l.Kind == "sat" {
			p = "C18"
		}
		if !l.Rec {
			all = false
			return v
		}
		e := parts[path]
		if e == nil {
			c.fail("C18", s.end, "part %q of the expectation was not told that the action is over", path)
			return v
		}
		if e.OK != v {
			c.fail(p, s.end, "the %s expectation (part %q) passed=%v, but the action produced %v", l.Kind, path, e.OK, w.made)
		}
		return e.OK
	}, func(n *ExpSpec, path string, v bool) {
		if e := parts[path]; n.Rec && e != nil && e.OK != v {
			c.fail("C18", s.end, "the %s expectation (part %q) passed=%v, but the verdicts of its parts mean %v", n.Kind, path, e.OK, v)
		}
	})
	if seen {
		c.count("verdict: met")
	} else {
		c.count("verdict: not met")
	}
	if failed == !seen {
		return
	}
	p := "C17"
	switch {
	case x.Rec:
		p = "C20 C17 C18"
	case x.Kind == "sat":
		p = "C18"
	case len(x.Kids) > 0 && all:
		p = "C18"
	case len(x.Kids) > 0:
		p = "C17 C18"
	}
	c.fail(p, s.end, "the test failed=%v, but the expectation is met=%v; the action produced %v", failed, seen, w.made)
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "extra " + a[i]
		}
		if a[i] != b[i] {
			return a[i] + " instead of " + b[i]
		}
	}
	if len(b) > len(a) {
		return "missing " + b[len(a)]
	}
	return ""
}

// enable checks a call that enables or disables handlers.
func (c *testChecker) enable(s *StepSpec, at int, out outcome) {
	on := s.Kind == "enable"
	names := s.Names
	ok := true
	if s.Like {
		names, ok = c.sc.App.likeNames(s.Names)
	} else {
		for _, n := range names {
			var h *HSpec
			for _, x := range c.sc.App.Handlers {
				if x.Name == n {
					h = x
				}
			}
			if h == nil || on && h.Off {
				ok = false
			}
		}
	}
	if ok != (out == outOK) {
		c.fail("C21", at, "%s %v: %s, though the handlers can be selected: %v", s.Kind, s.Names, out, ok)
	}
	if !ok {
		c.count("fault:invalid selection of handlers")
		return
	}
	for _, n := range names {
		c.on[n] = on
	}
}
