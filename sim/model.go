package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/dogmatiq/dogma"
)

// viol is a breach of one or more properties.
type viol struct {
	Props string // space separated
	Msg   string
	At    int
}

// callRec is a call to a method of the application.
type callRec struct {
	i, j   int // indices of the begin and end events; j is -1 if it did not end
	b, e   *Ev
	parent *callRec
	acts   []*actRec
	muts   []uint64
}

func (c *callRec) out() outcome {
	if c.e == nil {
		return outExit
	}
	return c.e.Out
}

func (c *callRec) fatal() bool { return c.out() == outPanic || c.out() == outExit }

type actRec struct {
	i, j   int
	b, e   *Ev
	nested []*callRec
}

// handling is the passing of one message to one handler, or its tick.
type handling struct {
	h       int
	q       *qmsg // nil for a tick
	calls   []*callRec
	existed bool
	inst    string
	err     error
	errs    []error // alternatives to err that are also acceptable
	fatal   *callRec
	breach  string
	done    bool // the handler finished
	kids    []*qmsg
}

// qmsg is a message that an operation must handle.
type qmsg struct {
	m        ref
	parent   *qmsg
	prod     *handling
	group    int
	h        int // origin, for timeouts
	inst     string
	gen      int
	due      int64
	created  int64
	tick     bool // became due by a tick
	optional bool
	finished bool
	doneH    map[int]bool
	runs     []*handling
	envID    string
	corrID   string
}

func (q *qmsg) tmo() bool { return q.m.K == kTmo }

// opRun is an operation, or one tick of a run.
type opRun struct {
	op     int32
	spec   *OpSpec
	kind   string
	run    bool // part of a run operation
	start  int
	end    int // index of the event at which it ended
	ev     []int
	calls  []*callRec // not nested in others
	all    []*callRec
	hooks  []int
	facts  [][]int
	notes  []int
	anchor int
	last   int // last application event
	out    outcome
	v      any
	now    int64
	ctxAt  []int // cancellations
	ctxT   int64 // deadline, or zero
	block  bool
	queue  []*qmsg
	ticks  []*handling
	hands  []*handling
	epoch  int
	obsP   any
	obsI   int // when the observer panicked
	serial int
	model  bool // the model explained the operation
	ranOK  bool // no fatal outcome
}

type aggKey struct {
	h  int
	id string
}

type procInst struct {
	root uint64
	gen  int
	log  []mutEnt
}

type mutEnt struct {
	v   uint64
	opt bool
}

type pendT struct {
	q     *qmsg
	limbo bool
}

type compactState struct {
	ever bool
	any  bool
	at   int64
}

// checker holds the reference model, and the breaches found so far.
type checker struct {
	w   *engineWorld
	evs []Ev
	vs  []viol

	ops  []*opRun
	byOp map[int32][]*opRun

	agg     map[aggKey][]uint64
	proc    map[aggKey]*procInst
	gens    map[aggKey]int
	pending []*pendT
	compact map[int]*compactState
	res     map[string]*qmsg
	ids     map[string]*qmsg
	envs    map[*qmsg]*envRec
	epoch   int
	broken  bool
	groups  int

	destroyRecord int // uses of record after destroy, and
	destroyStale  int // those after which the handler's root was stale
	stats         *stats
}

func (c *checker) fail(at int, props, format string, args ...any) {
	c.vs = append(c.vs, viol{props, fmt.Sprintf(format, args...), at})
}

// checkEngine decides the engine properties on the history of one engine.
func checkEngine(w *engineWorld, evs []Ev, st *stats) *checker {
	c := &checker{
		w: w, evs: evs, stats: st,
		agg: map[aggKey][]uint64{}, proc: map[aggKey]*procInst{}, gens: map[aggKey]int{},
		compact: map[int]*compactState{}, res: map[string]*qmsg{}, ids: map[string]*qmsg{},
		envs: map[*qmsg]*envRec{}, byOp: map[int32][]*opRun{},
	}
	c.collect()
	c.observers()
	c.serialise()
	if c.broken {
		return c
	}
	for _, o := range c.ops {
		c.step(o)
		if c.broken {
			break
		}
	}
	if !c.broken {
		for i, o := range c.ops {
			c.numbering(i, o)
		}
	}
	c.runs()
	return c
}

func (c *checker) name(h int) string { return c.w.app.Handlers[h].Name }

func (c *checker) hspec(h int) *HSpec { return c.w.app.Handlers[h] }

// collect groups the history by operation.
func (c *checker) collect() {
	open := map[int32]*opRun{}
	whole := map[int32]*opRun{}
	lastOf := map[int32]*opRun{}
	calls := map[int32]*callRec{}
	stacks := map[uint64][]*callRec{}
	acts := map[int32][]*actRec{}
	cancels := map[int32][]int{}
	blocks := map[int32]bool{}
	add := func(o *opRun) {
		c.ops = append(c.ops, o)
		c.byOp[o.op] = append(c.byOp[o.op], o)
		lastOf[o.op] = o
	}
	for i := range c.evs {
		e := &c.evs[i]
		if e.W != c.w.id || e.Op < 0 {
			continue
		}
		switch e.Kind {
		case evOpStart:
			o := &opRun{op: e.Op, spec: c.w.ops[e.Op], kind: e.S, start: i, end: -1, anchor: -1, last: -1, now: zeroNS}
			o.facts = make([][]int, o.spec.Obs)
			if o.spec.Ctx == "deadline" {
				o.ctxT = e.Sim + int64(o.spec.Ms)*1e6
			}
			whole[e.Op] = o
			if o.kind != "run" {
				open[e.Op] = o
				add(o)
			}
			continue
		case evCancel:
			cancels[e.Op] = append(cancels[e.Op], i)
			if e.OK {
				blocks[e.Op] = true
			}
			continue
		}
		if whole[e.Op] == nil {
			c.fail(i, "C01", "application code ran for an operation that has not begun: %s", e)
			continue
		}
		if whole[e.Op].kind == "run" && e.Kind == evFact && e.Obs == 0 && e.V.(*factRec).Type == "TickCycleBegun" {
			x := whole[e.Op]
			o := &opRun{op: e.Op, spec: x.spec, kind: "tick", run: true, start: i, end: -1, anchor: -1, last: -1, now: zeroNS, ctxT: x.ctxT}
			o.facts = make([][]int, x.spec.Obs)
			open[e.Op] = o
			add(o)
		}
		o := open[e.Op]
		if o == nil {
			o = lastOf[e.Op]
		}
		if e.Kind == evOpEnd {
			if o != nil && o.end < 0 {
				o.end, o.out, o.v = i, e.Out, e.V
			}
			whole[e.Op].end, whole[e.Op].out, whole[e.Op].v = i, e.Out, e.V
			open[e.Op] = nil
			continue
		}
		if o == nil {
			if e.Kind != evFact {
				c.fail(i, "C15 C11", "application code ran outside any tick of a run: %s", e)
			} else if e.Obs == 0 {
				c.fail(i, "C15 C11", "fact outside any tick of a run: %s", e)
			}
			continue
		}
		if whole[e.Op].end >= 0 {
			// Something happened after the operation returned.
			switch {
			case e.Kind == evFact:
				c.fail(i, "C11", "an observer was notified after the operation returned: %s", e)
			case e.Meth == mCompact && (e.Kind == evCall || e.Kind == evCallEnd || e.Kind == evAct || e.Kind == evActEnd):
				c.fail(i, "C05 C10 C01", "compaction was still running after the operation returned: %s", e)
			default:
				c.fail(i, "C01 C05", "application code ran after the operation returned: %s", e)
			}
			c.broken = true
			continue
		}
		o.ev = append(o.ev, i)
		if e.Kind != evFact && !(e.Kind == evNote && e.S == "obspanic") {
			if o.anchor < 0 {
				o.anchor = i
			}
			o.last = i
		}
		switch e.Kind {
		case evCall:
			r := &callRec{i: i, j: -1, b: e}
			st := stacks[e.GID]
			if len(st) > 0 {
				r.parent = st[len(st)-1]
				if a := acts[r.parent.b.Call]; len(a) > 0 && a[len(a)-1].j < 0 {
					a[len(a)-1].nested = append(a[len(a)-1].nested, r)
				}
			} else {
				o.calls = append(o.calls, r)
			}
			o.all = append(o.all, r)
			calls[e.Call] = r
			stacks[e.GID] = append(st, r)
		case evCallEnd:
			r := calls[e.Call]
			r.j, r.e = i, e
			st := stacks[e.GID]
			for k := len(st) - 1; k >= 0; k-- {
				if st[k] == r {
					stacks[e.GID] = st[:k]
					break
				}
			}
		case evAct:
			a := &actRec{i: i, j: -1, b: e}
			r := calls[e.Call]
			r.acts = append(r.acts, a)
			acts[e.Call] = append(acts[e.Call], a)
		case evActEnd:
			as := acts[e.Call]
			a := as[len(as)-1]
			a.j, a.e = i, e
		case evHook, evHookEnd:
			o.hooks = append(o.hooks, i)
		case evNote:
			o.notes = append(o.notes, i)
			switch e.S {
			case "mut":
				calls[e.Call].muts = append(calls[e.Call].muts, uint64(e.N))
			case "obspanic":
				if o.obsP == nil {
					o.obsI = i
				}
				o.obsP = e.V
				if o.run && o.end >= 0 {
					o.out, o.v = outPanic, e.V // thrown on completion
				}
			case "alone":
				c.fail(i, "C10", "handling and compaction of %s cannot overlap", c.name(int(e.H)))
			}
		case evFact:
			o.facts[e.Obs] = append(o.facts[e.Obs], i)
			f := e.V.(*factRec)
			if o.anchor < 0 && e.Obs == 0 {
				switch f.Type {
				case "DispatchBegun", "TickBegun", "TickSkipped":
					o.anchor = i
				}
			}
			if e.Obs == 0 && (f.Type == "DispatchCycleBegun" || f.Type == "TickCycleBegun") {
				o.now = f.Now
			}
			if o.run && e.Obs == int32(o.spec.Obs-1) && f.Type == "TickCycleCompleted" {
				o.end = i
				o.out = outOK
				if f.Err != nil {
					o.out, o.v = outErr, f.Err
				}
				open[e.Op] = nil
			}
		}
	}
	for _, o := range c.ops {
		if o.end < 0 {
			o.end = len(c.evs)
			o.out = outExit
			c.broken = true // only when stuck, which is reported separately
		}
		if o.spec.Now != nil {
			t := epochNS + int64(c.w.app.span(*o.spec.Now))
			if o.now != zeroNS && o.now != t {
				c.fail(o.start, "C12 C11", "operation at %s is reported to be at %s", tns(t), tns(o.now))
			}
			o.now = t
		}
		o.ctxAt = cancels[o.op]
		o.block = blocks[o.op]
	}
}

// observers checks that all observers of an operation are told the same.
func (c *checker) observers() {
	for _, o := range c.ops {
		for k, fs := range o.facts {
			for _, i := range fs {
				if c.evs[i].OK {
					c.fail(i, "C11", "an observer was notified of two facts at once: %s", &c.evs[i])
					return
				}
			}
			if k == 0 {
				continue
			}
			short := o.out == outPanic || o.out == outExit
			for n := range max(len(fs), len(o.facts[0])) {
				if o.obsP != nil && n < len(fs) && fs[n] > o.obsI {
					break
				}
				if n >= len(fs) || n >= len(o.facts[0]) {
					if !short {
						c.fail(o.end, "C11", "observers of one operation were told %d and %d facts", len(o.facts[0]), len(fs))
					}
					break
				}
				a, b := c.evs[o.facts[0][n]].V.(*factRec), c.evs[fs[n]].V.(*factRec)
				if a.Type != b.Type || a.Handler != b.Handler || a.Inst != b.Inst || a.Log != b.Log || envKey(a.Env) != envKey(b.Env) || envKey(a.Child) != envKey(b.Child) {
					c.fail(fs[n], "C11", "observers of one operation were told different facts: %s and %s", a, b)
					break
				}
			}
		}
	}
}

func envKey(e *envRec) string {
	if e == nil {
		return ""
	}
	return e.ID + "/" + e.M.String()
}

// serialise checks that operations did not interleave, and sorts them in the
// order in which they took effect.
func (c *checker) serialise() {
	for _, o := range c.ops {
		if o.anchor < 0 {
			o.anchor = o.end
		}
	}
	sort.SliceStable(c.ops, func(i, j int) bool { return c.ops[i].anchor < c.ops[j].anchor })
	var prev *opRun
	for n, o := range c.ops {
		o.serial = n
		if o.last < 0 {
			continue
		}
		if prev != nil && prev.last > o.anchor {
			c.fail(o.anchor, "C01", "operations %d and %d interleave: %s", prev.op, o.op, &c.evs[o.anchor])
			c.broken = true
			return
		}
		if prev == nil || o.last > prev.last {
			prev = o
		}
	}
}

func isCtxErr(v any) bool {
	judging = true
	defer func() { judging = false }()
	err, ok := v.(error)
	return ok && (errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded))
}

// step advances the model by one operation.
func (c *checker) step(o *opRun) {
	o.epoch = c.epoch
	if o.kind == "reset" {
		c.reset(o)
		return
	}
	if o.spec.Bad != "" {
		c.rejected(o)
		return
	}
	if o.now == zeroNS {
		o.now = c.evs[o.start].Sim // no observers, and no explicit time
	}
	before := len(c.vs)
	c.defaultNow(o)
	c.overlaps(o)
	if o.kind == "dispatch" {
		q := &qmsg{m: c.evs[o.start].M, created: o.now}
		o.queue = append(o.queue, q)
	} else {
		c.due(o)
	}
	c.deliver(o)
	o.model = !c.broken
	if !c.broken {
		c.cancellation(o)
		c.outcome(o)
		c.facts(o)
	}
	if o.kind == "tick" && o.obsP != nil {
		for h, s := range c.w.app.Handlers {
			if s.Kind != hProj {
				continue
			}
			if c.compact[h] == nil {
				c.compact[h] = &compactState{}
			}
			c.compact[h].any = true
		}
	}
	if len(c.vs) > before {
		c.broken = true // later mismatches would be consequences
	}
}

func (c *checker) defaultNow(o *opRun) {
	if o.spec.Now != nil || o.run || o.spec.Obs == 0 || len(o.facts[0]) == 0 {
		return
	}
	lo, hi := c.evs[o.start].Sim, c.evs[o.facts[0][0]].Sim
	if o.now < lo || o.now > hi {
		c.fail(o.start, "C12 C11", "operation performed without an explicit time at %s has an engine time of %s", tns(lo), tns(o.now))
	}
}

func (c *checker) reset(o *opRun) {
	if o.out != outOK {
		c.fail(o.end, "C14 C01", "reset ended with %s %v", o.out, o.v)
	}
	if len(o.calls) > 0 {
		c.fail(o.calls[0].i, "C14 C01", "reset called the application: %s", o.calls[0].b)
	}
	want := 0
	for k, i := range o.hooks {
		e := &c.evs[i]
		if int(e.N) != want || (e.Kind == evHook) != (k%2 == 0) {
			c.fail(i, "C14", "reset hooks were not each called once, in order")
			break
		}
		if e.Kind == evHookEnd {
			want++
		}
	}
	if want != c.w.sc.Hooks {
		c.fail(o.end, "C14", "reset called %d of %d hooks", want, c.w.sc.Hooks)
	}
	clear(c.agg)
	clear(c.proc)
	c.pending = nil
	for _, s := range c.compact {
		s.any = true
	}
	clear(c.res)
	clear(c.ids)
	c.epoch++
}

// rejected checks an operation that must not be accepted.
func (c *checker) rejected(o *opRun) {
	if o.out != outPanic {
		c.fail(o.end, "C24", "%s %s was not rejected: %s %v", o.spec.Bad, o.kind, o.out, o.v)
	}
	if len(o.calls) > 0 {
		c.fail(o.calls[0].i, "C24", "%s %s called the application: %s", o.spec.Bad, o.kind, o.calls[0].b)
	}
	for _, fs := range o.facts {
		if len(fs) > 0 {
			c.fail(fs[0], "C24", "%s %s was reported to observers: %s", o.spec.Bad, o.kind, &c.evs[fs[0]])
		}
	}
	if len(c.vs) > 0 {
		c.broken = true
	}
}

// cancelled returns true if the context had definitely ended by event i.
func (c *checker) cancelled(o *opRun, i int) bool {
	for _, k := range o.ctxAt {
		if k < i {
			return true
		}
	}
	return o.ctxT != 0 && i < len(c.evs) && c.evs[i].Sim > o.ctxT
}

// mayCancel returns true if the context may have ended by event i.
func (c *checker) mayCancel(o *opRun, i int) bool {
	return c.cancelled(o, i) || (o.ctxT != 0 && (i >= len(c.evs) || c.evs[i].Sim >= o.ctxT))
}

// overlaps checks that calls within an operation are made one at a time, other
// than compaction.
func (c *checker) overlaps(o *opRun) {
	var prev *callRec
	for _, r := range o.calls {
		if r.b.Meth == mCompact && (c.w.compactOn || r.b.GID != c.evs[o.start].GID) {
			continue
		}
		if prev != nil && (prev.j < 0 || prev.j > r.i) {
			c.fail(r.i, "C01 C02", "calls of one operation overlap: %s and %s", prev.b, r.b)
			c.broken = true
			return
		}
		prev = r
	}
}

// due determines the messages that a tick must deliver.
func (c *checker) due(o *opRun) {
	var keep []*pendT
	var now []*pendT
	for _, p := range c.pending {
		en, _ := o.spec.enabled(c.w.app, p.q.h)
		if en && p.q.due <= o.now {
			now = append(now, p)
		} else {
			keep = append(keep, p)
		}
	}
	sort.SliceStable(now, func(i, j int) bool { return now[i].q.due < now[j].q.due })
	for _, p := range now {
		q := *p.q
		q.tick = true
		q.optional = p.limbo
		q.doneH, q.runs = nil, nil
		o.queue = append(o.queue, &q)
	}
	c.pending = keep
}

// expect returns the handlers that must handle q, given the current state.
// Those with a false value may, but need not.
func (c *checker) expect(o *opRun, q *qmsg) map[int]bool {
	m := map[int]bool{}
	if q.tmo() {
		if p := c.proc[aggKey{q.h, q.inst}]; p != nil {
			m[q.h] = p.gen == q.gen && !q.optional
		}
		return m
	}
	for h, s := range c.w.app.Handlers {
		if !consumes(s, q.m.K, q.m.T) {
			continue
		}
		if en, _ := o.spec.enabled(c.w.app, h); en {
			m[h] = true
		}
	}
	return m
}

func consumes(s *HSpec, k, t int) bool {
	switch k {
	case kCmd:
		return (s.Kind == hAgg || s.Kind == hIntg) && has(s.In, t)
	case kEvt:
		return (s.Kind == hProc || s.Kind == hProj) && has(s.In, t)
	}
	return s.Kind == hProc && has(s.Tmo, t)
}

func has(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func (c *checker) silent(o *opRun, q *qmsg) bool {
	for h, must := range c.expect(o, q) {
		if must && !q.doneH[h] {
			return false
		}
	}
	return true
}

// mayPrecede returns true if b may be handled before a although a is ahead of
// it in the queue.
func mayPrecede(b, a *qmsg) bool {
	if a.tick && b.tick {
		return a.h != b.h || a.due == b.due
	}
	return a.group != 0 && a.group == b.group && (a.tmo() || b.tmo())
}

// deliver matches the calls made by an operation with the messages in its
// queue, and applies their effects to the model.
func (c *checker) deliver(o *opRun) {
	var cur *qmsg
	var hd *handling
	ticking := o.kind == "tick"

	close := func() {
		if hd != nil {
			c.finish(o, hd)
			hd = nil
		}
	}

	for _, r := range o.calls {
		h := int(r.b.H)
		// Compaction in parallel with HandleEvent() does not prevent it.
		parallel := hd != nil && hd.h == h && (r.b.Meth == mCompact ||
			r.b.Meth == mEvent && hd.fatal != nil && hd.fatal.b.Meth == mCompact)
		if o.dead() && !parallel {
			c.fail(r.i, "C05", "application code ran after a panic: %s", r.b)
			c.broken = true
			return
		}
		if ticking && r.b.Meth == mCompact {
			close()
			c.compaction(o, r)
			if c.broken {
				return
			}
			continue
		}
		ticking = false

		// Find the message that the call is about.
		var q *qmsg
		if r.b.M.K >= 0 && r.b.Meth != mApply {
			if hd != nil && hd.q.m.Tag != r.b.M.Tag {
				close()
				if c.broken {
					return
				}
			}
			for _, x := range o.queue {
				if x.m.Tag != r.b.M.Tag {
					continue
				}
				q = x
				if !x.doneH[h] || hd != nil && hd.q == x && hd.h == h && !c.complete(hd) {
					break
				}
			}
			if q == nil {
				c.unexpected(o, r, "which is not due to be handled")
				return
			}
			if q.m != r.b.M {
				c.fail(r.i, "C02", "message changed on its way to the handler: %s, was %s", r.b, q.m)
				c.broken = true
				return
			}
		} else if hd != nil && hd.h == h && !c.complete(hd) {
			q = hd.q
		} else {
			if hd != nil {
				close()
				if c.broken {
					return
				}
			}
			for _, x := range o.queue {
				if x.finished {
					continue
				}
				if _, ok := c.expect(o, x)[h]; ok && !x.doneH[h] {
					q = x
					break
				}
			}
			if q == nil {
				c.unexpected(o, r, "for which no message is waiting")
				return
			}
		}

		if hd == nil || hd.q != q || hd.h != h {
			close()
			if c.broken {
				return
			}
			if q != cur {
				if cur != nil && !c.closeMsg(o, cur, r.i) {
					return
				}
				for _, x := range o.queue {
					if x == q {
						break
					}
					if x.finished || x == cur || c.silent(o, x) || mayPrecede(q, x) {
						continue
					}
					props := "C02"
					if x.tmo() && q.tmo() {
						props = "C08"
					}
					c.fail(r.i, props, "%s was handled before %s", q.m, x.m)
					c.broken = true
					return
				}
				cur = q
			}
			if _, ok := c.expect(o, q)[h]; !ok || q.doneH[h] {
				c.unexpected(o, r, "again or wrongly")
				return
			}
			if q.doneH == nil {
				q.doneH = map[int]bool{}
			}
			q.doneH[h] = true
			hd = &handling{h: h, q: q}
			q.runs = append(q.runs, hd)
			o.hands = append(o.hands, hd)
		}
		hd.calls = append(hd.calls, r)
		if r.fatal() && hd.fatal == nil && !(r.b.Meth == mCompact && r.out() == outExit) {
			hd.fatal = r
		}
	}
	close()
	if c.broken {
		return
	}

	ended := o.dead() || o.obsP != nil
	ctx := isCtxErr(o.v)
	if !ended && !ctx {
		if cur != nil && !c.closeMsg(o, cur, o.end) {
			return
		}
		for _, x := range o.queue {
			if x.finished || c.silent(o, x) {
				continue
			}
			props := "C02 C04"
			if x.tmo() {
				props = "C08 C07 C04"
			}
			if len(c.errsOf(o)) > 0 {
				props += " C03"
			}
			c.fail(o.end, props, "operation %d returned (%s %v) without handling %s", o.op, o.out, o.v, x.m)
			c.broken = true
			return
		}
		c.missedCompaction(o)
		return
	}
	// Timeouts that were due when the operation was cut short may be lost, or
	// may be delivered by a later tick.
	for _, x := range o.queue {
		if x.tick && len(x.doneH) == 0 {
			if p := c.proc[aggKey{x.h, x.inst}]; p != nil && p.gen == x.gen {
				c.pending = append(c.pending, &pendT{x, true})
			}
		}
	}
	if ctx && cur != nil {
		// The message being handled when the context ended is not cut short.
		c.closeMsg(o, cur, o.end)
	}
}

// dead returns true if a call ended in a panic, or something equivalent.
func (o *opRun) dead() bool {
	for _, h := range o.hands {
		if h.fatal != nil || h.breach != "" {
			return true
		}
	}
	for _, h := range o.ticks {
		if h.fatal != nil {
			return true
		}
	}
	return false
}

func (c *checker) errsOf(o *opRun) []error {
	var errs []error
	for _, h := range o.hands {
		if h.err != nil {
			errs = append(errs, h.err)
		}
	}
	for _, h := range o.ticks {
		if h.err != nil {
			errs = append(errs, h.err)
		}
	}
	return errs
}

// unexpected reports a call for which the model has no explanation.
func (c *checker) unexpected(o *opRun, r *callRec, why string) {
	c.broken = true
	h := int(r.b.H)
	props := "C02"
	if r.b.Meth == mTimeout {
		props = "C08 C07"
		if c.epoch > 0 {
			props += " C14"
		}
	} else if r.b.Meth == mCompact {
		props = "C10"
	}
	if en, _ := o.spec.enabled(c.w.app, h); !en {
		props = "C13"
	}
	for _, x := range o.queue {
		for _, y := range x.runs {
			if y.err != nil {
				props += " C03"
			}
		}
	}
	c.fail(r.i, props, "%s was called %s", r.b, why)
}

// closeMsg checks that a message has been passed to all of its consumers.
func (c *checker) closeMsg(o *opRun, q *qmsg, at int) bool {
	q.finished = true
	if q.tmo() || o.dead() || o.obsP != nil {
		return true
	}
	for h, must := range c.expect(o, q) {
		if must && !q.doneH[h] {
			props := "C02"
			if o.out == outPanic {
				props += " C24 C05"
			}
			for _, y := range q.runs {
				if y.err != nil {
					props += " C03"
				}
			}
			if len(o.spec.En) > 0 || c.hspec(h).Off {
				props += " C13"
			}
			if o.ctxT != 0 || len(o.ctxAt) > 0 {
				props += " C04"
			}
			c.fail(at, props, "%s was not passed to %s", q.m, c.name(h))
			c.broken = true
			return false
		}
	}
	return true
}

// complete returns true if a handling cannot involve further calls.
func (c *checker) complete(hd *handling) bool {
	var version, event, closed, compact *callRec
	for _, r := range hd.calls {
		switch r.b.Meth {
		case mCommand, mTimeout:
			return true
		case mEvent:
			if c.hspec(hd.h).Kind == hProc {
				return true
			}
			event = r
		case mVersion:
			version = r
		case mClose:
			closed = r
		case mCompact:
			compact = r
		case mRoute:
			if c.hspec(hd.h).Kind == hProc && (r.out() == outErr || (r.out() == outOK && !r.e.OK)) {
				return true
			}
		}
	}
	if c.hspec(hd.h).Kind != hProj {
		return false
	}
	if version != nil && (version.out() != outOK || version.e.S2 != "") {
		return true
	}
	if event == nil || (c.w.sc.Compact && compact == nil) {
		return false
	}
	return event.out() != outOK || !event.e.OK || closed != nil
}

// finish checks a handling, and applies its effects to the model.
func (c *checker) finish(o *opRun, hd *handling) {
	for _, r := range hd.calls {
		if r.j < 0 {
			// It never returned; reported elsewhere.
			c.broken = true
			return
		}
	}
	before := len(c.vs)
	switch c.hspec(hd.h).Kind {
	case hAgg:
		c.aggregate(o, hd)
	case hProc:
		c.process(o, hd)
	case hIntg:
		c.integration(o, hd)
	case hProj:
		c.projection(o, hd)
	}
	if len(c.vs) > before {
		c.broken = true
		return
	}
	for _, k := range hd.kids {
		k.parent = hd.q
		k.prod = hd
		k.created = o.now
		if !k.tmo() || k.due <= o.now {
			o.queue = append(o.queue, k)
		} else {
			c.pending = append(c.pending, &pendT{q: k})
		}
	}
}

// only returns the single call of a method in a handling, or nil.
func (c *checker) only(o *opRun, hd *handling, m method) *callRec {
	var x *callRec
	for _, r := range hd.calls {
		if r.b.Meth != m {
			continue
		}
		if x != nil {
			props := "C02"
			switch m {
			case mCompact:
				props = "C10"
			case mVersion, mClose:
				props = "C09"
			case mTimeout:
				props = "C08"
			}
			c.fail(r.i, props, "%s called twice for one message: %s", m, r.b)
			return nil
		}
		x = r
	}
	return x
}

// scopeUse checks that the messages an application produced in a call were
// accepted or rejected as they should have been. It returns false if the call
// ended in a rejection.
func (c *checker) scopeUse(o *opRun, hd *handling, r *callRec) {
	s := c.hspec(hd.h)
	for _, a := range r.acts {
		if a.e == nil {
			continue
		}
		var ok bool
		switch a.b.S {
		case "record":
			ok = has(s.Out, a.b.M.T) && !a.b.M.Bad
		case "execute":
			ok = has(s.Out, a.b.M.T) && !a.b.M.Bad
		case "schedule":
			ok = has(s.Tmo, a.b.M.T) && !a.b.M.Bad
		default:
			ok = true
		}
		switch a.e.Out {
		case outOK:
			if !ok {
				c.fail(a.j, "C24", "%s by %s was accepted: %s", a.b.S, s.Name, a.b.M)
			}
		case outPanic, outCaught:
			inj := injectedPanic(a.e.V) || a.e.V == any(dogma.UnexpectedMessage) || unexpText(a.e.V)
			if ok && !inj {
				props := "C24 C05"
				if a.b.M.K < 0 {
					props = "C11 C05"
				}
				c.fail(a.j, props, "%s by %s was rejected: %v", a.b.S, s.Name, a.e.V)
			}
			if !ok && !inj && !strings.Contains(fmt.Sprint(a.e.V), s.Name) {
				c.fail(a.j, "C24", "rejection of %s by %s does not identify the handler: %v", a.b.S, s.Name, a.e.V)
			}
		}
	}
}

func unexpText(v any) bool { return strings.Contains(fmt.Sprint(v), "did not expect") }

func eqU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *checker) aggregate(o *opRun, hd *handling) {
	var inst string
	routed := false
	for _, r := range hd.calls {
		if r.b.Meth == mRoute && r.out() == outOK {
			inst, routed = r.e.S, true
			if inst == "" {
				hd.breach = "empty instance ID"
			}
		}
		if r.b.Meth == mNew && r.out() == outOK && r.e.S == "nil" && hd.breach == "" {
			hd.breach = "nil root"
		}
	}
	hd.inst = inst
	r := c.only(o, hd, mCommand)
	if hd.breach != "" {
		if r != nil {
			c.fail(r.i, "C24", "%s: the handler was called: %s", hd.breach, r.b)
		}
		return
	}
	hist, exists := c.agg[aggKey{hd.h, inst}]
	hd.existed = exists
	if r == nil {
		if hd.fatal == nil && o.obsP == nil {
			props := "C02"
			if o.out == outPanic {
				props += " C24 C05" // it was rejected
			}
			c.fail(hd.calls[0].i, props, "%s was not passed to %s", hd.q.m, c.name(hd.h))
		}
		return
	}
	if !routed || r.b.S != inst {
		c.fail(r.i, "C06 C02", "command routed to instance %q was handled by instance %q", inst, r.b.S)
	}
	if r.b.S2 != "" {
		c.fail(r.i, "C24 C06", "handler was called with a nil root")
		return
	}
	if !eqU(r.b.Root, hist) {
		props := "C06"
		if c.epoch > 0 {
			props += " C14"
		}
		if c.panicsBefore(o) {
			props += " C05 C24"
		}
		c.fail(r.i, props, "instance %q of %s has had events %v applied, but recorded %v", inst, c.name(hd.h), r.b.Root, hist)
		return
	}
	c.scopeUse(o, hd, r)
	events := append([]uint64(nil), hist...)
	destroyed, wasDestroyed := false, false
	var atDestroy []uint64
	live := exists
	for _, a := range r.acts {
		switch a.b.S {
		case "record":
			if a.e.Out != outOK {
				continue
			}
			events = append(events, a.b.M.Tag)
			hd.kids = append(hd.kids, &qmsg{m: a.b.M})
			live, destroyed = true, false
			if wasDestroyed {
				c.destroyRecord++
				if !eqU(a.e.Root, events) {
					if !eqU(a.e.Root, atDestroy) {
						c.fail(a.j, "C06", "after recording %s the handler's root has events %v, not %v", a.b.M, a.e.Root, events)
					}
					c.destroyStale++
				}
			} else if !eqU(a.e.Root, events) {
				c.fail(a.j, "C06", "after recording %s the handler's root has events %v, not %v", a.b.M, a.e.Root, events)
			}
		case "destroy":
			if live && a.e.Out == outOK {
				if !wasDestroyed {
					atDestroy = snapshot(a.e.Root)
				}
				destroyed, wasDestroyed, live = true, true, false
			}
		}
	}
	if r.fatal() {
		hd.kids = nil
		return
	}
	hd.done = true
	switch {
	case destroyed:
		delete(c.agg, aggKey{hd.h, inst})
	case live:
		c.agg[aggKey{hd.h, inst}] = events
	}
}

// panicsBefore returns true if an earlier operation ended in a panic.
func (c *checker) panicsBefore(o *opRun) bool {
	for _, x := range c.ops[:o.serial] {
		if x.out == outPanic || x.out == outExit {
			return true
		}
	}
	return false
}

func (c *checker) failsBefore(o *opRun) bool {
	for _, x := range c.ops[:o.serial+1] {
		if x.out == outErr {
			return true
		}
		for _, h := range x.hands {
			if h.err != nil {
				return true
			}
		}
	}
	return false
}

func (c *checker) process(o *opRun, hd *handling) {
	inst := hd.q.inst
	meth := mTimeout
	var root uint64
	for _, r := range hd.calls {
		switch r.b.Meth {
		case mRoute:
			if r.out() == outErr {
				hd.err = r.e.V.(error)
			} else if r.out() == outOK {
				if !r.e.OK {
					inst = ""
				} else if r.e.S == "" {
					hd.breach = "empty instance ID"
				} else {
					inst = r.e.S
				}
			}
		case mNew:
			if r.out() == outOK {
				root = uint64(r.e.N)
				if r.e.S == "nil" {
					hd.breach = "nil root"
				}
			}
		}
	}
	if !hd.q.tmo() {
		meth = mEvent
	}
	hd.inst = inst
	r := c.only(o, hd, meth)
	for _, x := range hd.calls {
		if (x.b.Meth == mEvent || x.b.Meth == mTimeout) && x.b.Meth != meth {
			c.fail(x.i, "C02 C08", "wrong method for the message: %s", x.b)
			return
		}
	}
	if hd.breach != "" {
		if r != nil {
			c.fail(r.i, "C24", "%s: the handler was called: %s", hd.breach, r.b)
		}
		return
	}
	if hd.err != nil || (inst == "" && hd.fatal == nil) {
		if r != nil {
			c.fail(r.i, "C07 C03", "handler was called for an event it failed to route, or ignored: %s", r.b)
		}
		return
	}
	key := aggKey{hd.h, inst}
	p := c.proc[key]
	hd.existed = p != nil
	if r == nil {
		if hd.fatal == nil && o.obsP == nil {
			props := "C02"
			if o.out == outPanic {
				props += " C24 C05" // it was rejected
			}
			c.fail(hd.calls[0].i, props, "%s was not passed to %s", hd.q.m, c.name(hd.h))
		}
		return
	}
	more := ""
	if c.epoch > 0 {
		more += " C14"
	}
	if c.panicsBefore(o) {
		more += " C05 C24"
	}
	if c.failsBefore(o) {
		more += " C03"
	}
	if r.b.S != inst {
		c.fail(r.i, "C07 C08", "message for instance %q of %s was handled by instance %q", inst, c.name(hd.h), r.b.S)
		return
	}
	if r.b.S2 != "" {
		c.fail(r.i, "C24 C07", "handler was called with a nil root")
		return
	}
	if c.hspec(hd.h).Plain {
		// All of its instances have the same root.
	} else if p == nil {
		if root == 0 || len(r.b.Root) != 1 || r.b.Root[0] != root {
			c.fail(r.i, "C07"+more, "instance %q of %s begins with root %v rather than a new one", inst, c.name(hd.h), r.b.Root)
			return
		}
	} else if !p.matches(r.b.Root) {
		c.fail(r.i, "C07"+more, "instance %q of %s has root %v rather than %v", inst, c.name(hd.h), r.b.Root, p)
		return
	}
	if meth == mTimeout {
		if r.b.T != hd.q.due {
			c.fail(r.i, "C08 C12", "timeout %s due at %s is said to be scheduled for %s", hd.q.m, tns(hd.q.due), tns(r.b.T))
		}
	} else if r.b.T != hd.q.created {
		c.fail(r.i, "C12", "event %s recorded at %s is said to have been recorded at %s", hd.q.m, tns(hd.q.created), tns(r.b.T))
	}
	c.scopeUse(o, hd, r)
	ended := false
	c.groups++
	var cmds, tmos []*qmsg
	for _, a := range r.acts {
		if a.e.Out != outOK {
			continue
		}
		switch a.b.S {
		case "execute":
			ended = false
			cmds = append(cmds, &qmsg{m: a.b.M, group: c.groups})
		case "schedule":
			ended = false
			tmos = append(tmos, &qmsg{m: a.b.M, group: c.groups, h: hd.h, inst: inst, due: a.b.T})
		case "end":
			ended = true
		}
	}
	if r.out() != outOK {
		if r.out() == outErr {
			hd.err = r.e.V.(error)
		}
		if p != nil {
			for _, v := range r.muts {
				p.log = append(p.log, mutEnt{v, true})
			}
		}
		return
	}
	hd.done = true
	hd.kids = cmds
	if ended {
		if p != nil {
			delete(c.proc, key)
			c.dropTimeouts(key)
		}
		return
	}
	if p == nil {
		c.gens[key]++
		p = &procInst{root: root, gen: c.gens[key]}
		c.proc[key] = p
	}
	for _, v := range r.muts {
		p.log = append(p.log, mutEnt{v, false})
	}
	for _, t := range tmos {
		t.gen = p.gen
	}
	hd.kids = append(hd.kids, tmos...)
}

func (c *checker) dropTimeouts(k aggKey) {
	var keep []*pendT
	for _, p := range c.pending {
		if p.q.h != k.h || p.q.inst != k.id {
			keep = append(keep, p)
		}
	}
	c.pending = keep
}

// matches returns true if the root content is as left by earlier handlings.
// Changes made by handlings that failed may or may not be present.
func (p *procInst) matches(root []uint64) bool {
	if len(root) == 0 || root[0] != p.root {
		return false
	}
	i := 1
	for _, m := range p.log {
		if i < len(root) && root[i] == m.v {
			i++
		} else if !m.opt {
			return false
		}
	}
	return i == len(root)
}

func (p *procInst) String() string { return fmt.Sprint(p.root, p.log) }

func (c *checker) integration(o *opRun, hd *handling) {
	r := c.only(o, hd, mCommand)
	if r == nil {
		return
	}
	c.scopeUse(o, hd, r)
	if r.fatal() {
		return
	}
	hd.done = true
	if r.out() == outErr {
		hd.err = r.e.V.(error)
	}
	for _, a := range r.acts {
		if a.b.S == "record" && a.e.Out == outOK {
			hd.kids = append(hd.kids, &qmsg{m: a.b.M})
		}
	}
}

func (c *checker) projection(o *opRun, hd *handling) {
	n := len(c.vs)
	version := c.only(o, hd, mVersion)
	event := c.only(o, hd, mEvent)
	closed := c.only(o, hd, mClose)
	compact := c.only(o, hd, mCompact)
	for _, r := range hd.calls {
		c.scopeUse(o, hd, r)
	}
	if len(c.vs) > n {
		return
	}
	first := hd.calls[0]
	if version == nil {
		c.fail(first.i, "C09", "%s was handled without reading the resource version", hd.q.m)
		return
	}
	if first != version {
		c.fail(first.i, "C09", "%s was called before the resource version was read", first.b.Meth)
		return
	}
	res := version.b.S
	if q, ok := c.res[res]; ok && q != hd.q {
		c.fail(version.i, "C09 C12 C14", "resource %q is used for two messages, %s and %s", res, q.m, hd.q.m)
		return
	}
	c.res[res] = hd.q
	stop := func(why string) {
		for _, x := range []*callRec{event, closed} {
			if x != nil {
				c.fail(x.i, "C09", "%s was called after %s", x.b.Meth, why)
			}
		}
		if compact != nil {
			c.fail(compact.i, "C10 C09", "compaction ran after %s", why)
		}
	}
	switch {
	case version.fatal():
		stop("ResourceVersion panicked")
		return
	case version.out() == outErr:
		hd.err = version.e.V.(error)
		stop("ResourceVersion failed")
		return
	case version.e.S2 != "":
		hd.done = true
		stop("the event was found to be applied already")
		return
	}
	if c.w.sc.Compact {
		if compact == nil {
			if o.obsP == nil && (event != nil || hd.fatal == nil) {
				c.fail(first.i, "C10", "%s was handled by %s without compaction", hd.q.m, c.name(hd.h))
				return
			}
		} else {
			if compact.i < version.j {
				c.fail(compact.i, "C10 C09", "compaction began before the resource version was read")
			}
			if compact.b.T != o.now {
				c.fail(compact.i, "C10", "compaction at %s was told it is %s", tns(o.now), tns(compact.b.T))
			}
			if compact.out() == outErr {
				hd.err = compact.e.V.(error)
			}
		}
	} else if compact != nil {
		c.fail(compact.i, "C10", "compaction ran during handling although it was not enabled")
		return
	}
	if event == nil {
		if hd.fatal == nil && o.obsP == nil {
			c.fail(first.i, "C02 C09", "%s was not passed to %s", hd.q.m, c.name(hd.h))
		}
		return
	}
	if event.b.S != res {
		c.fail(event.i, "C09", "version of resource %q was read, but resource %q was used", res, event.b.S)
	}
	if !event.b.OK {
		c.fail(event.i, "C09", "handler was given versions %s", event.b.S2)
	}
	if event.b.T != hd.q.created {
		c.fail(event.i, "C12", "event %s recorded at %s is said to have been recorded at %s", hd.q.m, tns(hd.q.created), tns(event.b.T))
	}
	if event.out() != outOK || !event.e.OK {
		if event.out() == outErr {
			hd.errs = append(hd.errs, hd.err)
			hd.err = event.e.V.(error)
		} else if event.out() == outOK {
			hd.done = true
		}
		if closed != nil {
			c.fail(closed.i, "C09", "resource was closed although the event was not applied")
		}
		return
	}
	hd.done = true
	if closed == nil {
		if hd.fatal == nil && o.obsP == nil {
			c.fail(event.j, "C09", "resource was not closed after the event was applied")
		}
		return
	}
	if closed.b.S != res {
		c.fail(closed.i, "C09", "resource %q was used, but resource %q was closed", res, closed.b.S)
	}
	if closed.i < event.j {
		c.fail(closed.i, "C09", "resource was closed before the event was applied")
	}
	if closed.out() == outErr {
		hd.errs = append(hd.errs, hd.err)
		hd.err = closed.e.V.(error)
	}
}

// compaction checks a compaction performed by a tick.
func (c *checker) compaction(o *opRun, r *callRec) {
	h := int(r.b.H)
	for _, x := range o.ticks {
		if x.h == h {
			c.fail(r.i, "C10", "%s was compacted twice by one tick", c.name(h))
			c.broken = true
			return
		}
	}
	if en, _ := o.spec.enabled(c.w.app, h); !en {
		c.fail(r.i, "C13 C10", "%s was compacted although it is disabled", c.name(h))
		c.broken = true
		return
	}
	st := c.compact[h]
	if st == nil {
		st = &compactState{}
		c.compact[h] = st
	}
	if st.ever && !st.any && o.now-st.at < 3600e9 {
		c.fail(r.i, "C10", "%s was compacted at %s, and before at %s", c.name(h), tns(o.now), tns(st.at))
		c.broken = true
		return
	}
	if r.b.T != o.now {
		c.fail(r.i, "C10", "compaction at %s was told it is %s", tns(o.now), tns(r.b.T))
	}
	if r.j < 0 {
		c.broken = true
		return
	}
	hd := &handling{h: h, calls: []*callRec{r}}
	c.scopeUse(o, hd, r)
	*st = compactState{ever: true, at: o.now}
	if r.fatal() {
		hd.fatal = r
		st.any = true
	} else if r.out() == outErr {
		hd.err = r.e.V.(error)
	}
	o.ticks = append(o.ticks, hd)
}

// missedCompaction checks that a completed tick compacted all it should have.
func (c *checker) missedCompaction(o *opRun) {
	if o.kind != "tick" {
		return
	}
next:
	for h, s := range c.w.app.Handlers {
		if s.Kind != hProj {
			continue
		}
		if en, _ := o.spec.enabled(c.w.app, h); !en {
			continue
		}
		for _, x := range o.ticks {
			if x.h == h {
				continue next
			}
		}
		st := c.compact[h]
		if st == nil || (!st.any && o.now-st.at >= 3600e9) {
			c.fail(o.end, "C10", "%s was not compacted at %s", c.name(h), tns(o.now))
			c.broken = true
			return
		}
	}
}
