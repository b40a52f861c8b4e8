package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/dogma"
	"github.com/dogmatiq/enginekit/message"
)

func safeEq(a, b any) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = fmt.Sprint(a) == fmt.Sprint(b)
		}
	}()
	return a == b
}

func typeName(m ref) string {
	switch m.K {
	case kCmd:
		return message.TypeOf(mkCmd(m.T, m.body)).String()
	case kEvt:
		return message.TypeOf(mkEvt(m.T, m.body)).String()
	}
	return message.TypeOf(mkTmo(m.T, m.body)).String()
}

// kindProp returns the property that is about one kind of handler.
func (c *checker) kindProp(h int) string {
	switch c.hspec(h).Kind {
	case hAgg:
		return " C06"
	case hProc:
		return " C07"
	case hProj:
		return " C09"
	}
	return ""
}

// outcome checks how an operation ended.
func (c *checker) outcome(o *opRun) {
	var dead *handling
	for _, h := range append(o.ticks[:len(o.ticks):len(o.ticks)], o.hands...) {
		if h.fatal != nil || h.breach != "" {
			dead = h
			break
		}
	}
	if dead != nil && o.obsP != nil && o.out == outPanic && o.v == o.obsP {
		return
	}
	if dead == nil && o.obsP != nil {
		if o.out != outPanic || o.v != o.obsP {
			c.fail(o.end, "C05", "an observer panicked, but the operation ended with %s %v", o.out, o.v)
		}
		return
	}
	if dead == nil {
		c.returned(o)
		return
	}

	name := c.name(dead.h)
	if dead.breach != "" {
		if o.out != outPanic {
			c.fail(o.end, "C24", "%s by %s: the operation ended with %s %v", dead.breach, name, o.out, o.v)
		} else if !strings.Contains(fmt.Sprint(o.v), name) {
			c.fail(o.end, "C24", "%s by %s: panic does not identify the handler: %v", dead.breach, name, o.v)
		}
		return
	}

	props := "C05"
	if dead.fatal.b.Meth == mCompact {
		props += " C10"
	}
	var want []string
	for _, r := range dead.calls {
		if !r.fatal() {
			continue
		}
		if r.out() == outExit {
			if o.out == outExit {
				return
			}
			if r.b.Meth == mCompact && r.b.GID != c.evs[o.start].GID {
				return // the goroutine that ended is not the caller's
			}
			want = append(want, "goexit")
			continue
		}
		v := r.e.V
		if o.out == outPanic {
			if safeEq(v, any(dogma.UnexpectedMessage)) {
				s := fmt.Sprint(o.v)
				if strings.Contains(s, name) && (r.b.M.K < 0 || strings.Contains(s, typeName(r.b.M))) {
					return
				}
			} else if safeEq(v, o.v) {
				return
			}
		}
		want = append(want, fmt.Sprint("panic ", v))
	}
	c.fail(o.end, props, "%s ended with %v, but the operation with %s %v", name, want, o.out, o.v)
}

// returned checks the result of an operation that had no reason to panic.
func (c *checker) returned(o *opRun) {
	switch o.out {
	case outPanic, outExit:
		c.fail(o.end, "C05 C24 C02", "the operation ended with %s %v for no reason", o.out, o.v)
		return
	}
	if isCtxErr(o.v) {
		if !c.mayCancel(o, o.end) {
			c.fail(o.end, "C04 C03", "the operation returned %v, but its context had not ended", o.v)
		}
		return
	}
	all := append(o.ticks[:len(o.ticks):len(o.ticks)], o.hands...)
	failed := 0
	for _, h := range all {
		if h.err == nil {
			continue
		}
		failed++
		props := "C03"
		if h.q == nil {
			props += " C10"
		} else if k := c.hspec(h.h).Kind; k == hProj {
			props += " C09"
			if c.w.sc.Compact {
				props += " C10"
			}
		}
		err, _ := o.v.(error)
		if err == nil || !errors.Is(err, h.err) {
			c.fail(o.end, props, "%s failed with %v, but the operation returned %s %v", c.name(h.h), h.err, o.out, o.v)
			return
		}
		if !strings.Contains(err.Error(), c.name(h.h)) {
			c.fail(o.end, "C03", "the error of %s does not identify it: %v", c.name(h.h), err)
			return
		}
	}
	if failed == 0 && o.out == outErr {
		c.fail(o.end, "C03 C13", "the operation returned %v, but no handler failed", o.v)
	}
}

// promptly is the time within which something that happens promptly happens.
const promptly = 20e6

// stallsBetween returns how much of the time between two events is due to
// stalls.
func (c *checker) stallsBetween(i, j int) (n int64) {
	if j >= len(c.evs) {
		j = len(c.evs) - 1
	}
	from, to := c.evs[i].Sim, c.evs[j].Sim
	for k := 0; k <= j; k++ {
		if e := &c.evs[k]; e.Kind == evStall {
			n += max(0, min(to, e.Sim+e.N*1e6)-max(from, e.Sim))
		}
	}
	return n
}

// span is the time during which one message, or one handler's tick, is handled.
type span struct {
	key  any
	i, j int // indices of its first and last events
}

// spans lists the units of work within an operation: messages, and handler
// ticks.
func (c *checker) spans(o *opRun) []span {
	var ss []span
	if o.spec.Obs > 0 {
		open := -1
		for _, i := range o.facts[0] {
			f := c.evs[i].V.(*factRec)
			switch f.Type {
			case "TickBegun":
				open = len(ss)
				ss = append(ss, span{f.Handler, i, o.end})
			case "DispatchBegun":
				open = len(ss)
				ss = append(ss, span{f.Env.ID, i, o.end})
			case "TickCompleted", "DispatchCompleted":
				if open >= 0 {
					ss[open].j = i
				}
				open = -1
			}
		}
		return ss
	}
	for _, h := range append(o.ticks[:len(o.ticks):len(o.ticks)], o.hands...) {
		var key any = c.name(h.h)
		if h.q != nil {
			key = h.q
		}
		for _, r := range h.calls {
			j := r.j
			if j < 0 {
				j = o.end
			}
			if n := len(ss); n > 0 && ss[n-1].key == key {
				ss[n-1].j = max(ss[n-1].j, j)
			} else {
				ss = append(ss, span{key, r.i, j})
			}
		}
	}
	return ss
}

// cancellation checks what an operation did once its context had ended.
func (c *checker) cancellation(o *opRun) {
	ss := c.spans(o)
	plain := o.out == outOK || o.out == outErr
	for _, k := range o.ctxAt {
		if k >= o.end || (o.run && k < o.start) {
			continue
		}
		after := 0
		var open bool
		for _, s := range ss {
			if s.i < k && k < s.j {
				open = true
			} else if s.i > k {
				after++
			}
		}
		if open && after > 0 || after > 1 {
			c.fail(k, "C04", "operation %d went on to handle %d more messages or ticks after it was cancelled", o.op, after)
			return
		}
		if open && plain && !isCtxErr(o.v) {
			// It may have been in the unit's final steps if no call was open.
			for _, r := range o.calls {
				if r.i < k && (r.j < 0 || k < r.j) {
					c.fail(o.end, "C04", "operation %d was cancelled while it was running, but ended with %s %v", o.op, o.out, o.v)
					return
				}
			}
		}
		if c.evs[k].OK && o.start < k {
			// It was blocked. If not by the application, and another operation
			// was using it, then by that operation.
			busy := len(o.hooks) > 0
			for _, s := range ss {
				busy = busy || s.i < k
			}
			for _, r := range o.calls {
				busy = busy || r.i < k
			}
			if !busy && o.kind != "reset" && o.obsP == nil && c.engaged(o, k) {
				if !isCtxErr(o.v) || len(o.calls) > 0 || len(ss) > 0 {
					c.fail(o.end, "C04", "operation %d was cancelled while it waited, but ended with %s %v having made %d calls", o.op, o.out, o.v, len(o.calls))
					return
				}
				if d := c.evs[o.end].Sim - c.evs[k].Sim; d > c.stallsBetween(k, o.end)+promptly {
					c.fail(o.end, "C04", "operation %d was cancelled while it waited, but returned %dms later", o.op, d/1e6)
					return
				}
			}
		}
	}
	if t := o.ctxT; t != 0 && o.end < len(c.evs) && c.evs[o.end].Sim > t {
		from := o.start
		if o.run {
			from = 0
		}
		stalls := c.stallsBetween(from, o.end)
		after, began := 0, false
		var open bool
		for _, s := range ss {
			b, e := c.evs[s.i].Sim, c.evs[s.j].Sim
			switch {
			case b < t && e > t:
				open = true
			case b > t:
				after++
			}
			if b <= t {
				began = true
			}
		}
		if open && after > 0 || after > 1 {
			c.fail(o.end, "C04", "operation %d went on to handle %d more messages or ticks after its deadline", o.op, after)
			return
		}
		for _, r := range o.calls {
			if c.evs[r.i].Sim < t && r.j >= 0 && c.evs[r.j].Sim > t && plain && !isCtxErr(o.v) {
				c.fail(o.end, "C04", "operation %d reached its deadline while it was running, but ended with %s %v", o.op, o.out, o.v)
				return
			}
		}
		if !began && stalls == 0 && c.evs[o.end].Sim > t+promptly && (o.spec.Obs > 0 || len(o.calls) == 0 || c.evs[o.calls[0].i].Sim > t) {
			c.fail(o.end, "C04", "operation %d was still waiting after its deadline", o.op)
			return
		}
	}
}

// occupied returns true if operations other than op took place between two
// times.
func (c *checker) occupied(op int32, from, to int64) bool {
	for _, p := range c.ops {
		if p.op != op && len(p.calls)+len(p.hooks) > 0 && p.end < len(c.evs) && c.evs[p.start].Sim <= to && c.evs[p.end].Sim >= from {
			return true
		}
	}
	return false
}

// engaged returns true if another operation was calling the application at
// event k.
func (c *checker) engaged(o *opRun, k int) bool {
	for _, p := range c.ops {
		if p.op == o.op {
			continue
		}
		for _, r := range p.calls {
			if r.i < k && (r.j > k || r.j < 0 && p.end > k) {
				return true
			}
		}
	}
	return false
}

// numbering checks that message IDs start again after a reset.
func (c *checker) numbering(n int, o *opRun) {
	if o.kind != "reset" || n+1 >= len(c.ops) || c.w.firstID == "" {
		return
	}
	x := c.ops[n+1]
	if x.kind != "dispatch" || x.spec.Bad != "" || x.spec.Obs == 0 || len(x.facts[0]) == 0 {
		return
	}
	for _, y := range c.ops {
		if y != o && y != x && !(y.end < o.start || y.start > x.end) {
			return
		}
	}
	if x.start < o.end {
		return
	}
	if f := c.evs[x.facts[0][0]].V.(*factRec); f.Env != nil && f.Env.ID != c.w.firstID {
		c.fail(x.facts[0][0], "C14", "first message after a reset has ID %q, rather than %q as in a new engine", f.Env.ID, c.w.firstID)
	}
}

// item is a fact that must be reported.
type item struct {
	typ    string
	inst   string
	child  *qmsg
	log    string
	lo, hi int
	opt    bool
	root   []uint64
	err    error
	noEnv  bool
}

type factParser struct {
	c     *checker
	o     *opRun
	fs    []int
	pos   int
	short bool // the operation panicked, so that facts may end anywhere
	stop  bool
	cur   *qmsg
	curH  int
}

func (p *factParser) peek() *factRec {
	if p.stop || p.pos >= len(p.fs) {
		return nil
	}
	return p.c.evs[p.fs[p.pos]].V.(*factRec)
}

func (p *factParser) idx() int {
	if p.pos < len(p.fs) {
		return p.fs[p.pos]
	}
	return p.o.end
}

func (p *factParser) fail(props, format string, args ...any) {
	if !p.stop {
		p.c.fail(p.idx(), props, format, args...)
		p.stop = true
	}
}

// want consumes a fact of the given type.
func (p *factParser) want(typ string) *factRec {
	f := p.peek()
	if f == nil {
		if !p.short {
			p.fail("C11", "the fact %s is missing at the end of operation %d", typ, p.o.op)
		}
		p.stop = true
		return nil
	}
	if f.Type != typ {
		p.fail("C11", "expected the fact %s, not %s", typ, f)
		return nil
	}
	p.pos++
	return f
}

func (p *factParser) at() int { return p.fs[p.pos-1] }

// facts checks what the observers of an operation were told.
func (c *checker) facts(o *opRun) {
	if o.spec.Obs == 0 {
		return
	}
	p := &factParser{c: c, o: o, fs: o.facts[0]}
	p.short = o.out == outPanic || o.out == outExit
	if o.obsP != nil && len(p.fs) > 0 {
		// What was to happen next is not known.
		for len(p.fs) > 0 && p.fs[len(p.fs)-1] > o.obsI {
			p.fs = p.fs[:len(p.fs)-1]
		}
		p.fs = p.fs[:max(0, len(p.fs)-1)]
	}
	p.all()
}

func (p *factParser) all() {
	o := p.o
	begun, completed := "DispatchCycleBegun", "DispatchCycleCompleted"
	if o.kind == "tick" {
		begun, completed = "TickCycleBegun", "TickCycleCompleted"
	}
	f := p.want(begun)
	if f == nil {
		return
	}
	if o.kind == "dispatch" {
		if f.Env == nil || f.Env.M != o.queue[0].m {
			p.fail("C11", "the fact %s is not about the dispatched message %s", f, o.queue[0].m)
			return
		}
		p.env(f.Env, o.queue[0], nil, o.queue[0].created, zeroNS, nil)
	}
	p.enabled(f)

	ctx := isCtxErr(o.v)
	if o.kind == "tick" {
		p.ticks(ctx)
	}
	disp := map[*qmsg]bool{}
	for f := p.peek(); f != nil && f.Type == "DispatchBegun"; f = p.peek() {
		var q *qmsg
		for _, x := range o.queue {
			if f.Env != nil && x.m == f.Env.M && !disp[x] {
				q = x
				break
			}
		}
		if q == nil {
			p.fail("C11 C02", "unexpected fact: %s", f)
			return
		}
		for _, x := range o.queue {
			if x == q {
				break
			}
			if !disp[x] && !x.optional && !mayPrecede(q, x) {
				props := "C02 C11"
				if x.tmo() && q.tmo() {
					props = "C08 C11"
				}
				p.fail(props, "%s was dispatched before %s", q.m, x.m)
				return
			}
		}
		disp[q] = true
		p.pos++
		p.message(q, f)
		if p.stop {
			return
		}
	}
	if !p.short && !ctx && !p.stop {
		for _, x := range o.queue {
			if !disp[x] && !x.optional {
				p.fail("C11 C02", "%s was not dispatched", x.m)
				return
			}
		}
	}
	f = p.want(completed)
	if f == nil {
		return
	}
	p.enabled(f)
	if (f.Err != nil) != (o.out == outErr) {
		if !p.short {
			p.fail("C11", "the operation ended with %s %v, but %s", o.out, o.v, f)
			return
		}
	} else if err, ok := o.v.(error); ok && f.Err != nil && f.Err.Error() != err.Error() {
		p.fail("C11", "the operation ended with %v, but %s", o.v, f)
		return
	}
	if o.kind == "dispatch" && (f.Env == nil || f.Env.M != o.queue[0].m) {
		p.fail("C11", "the fact %s is not about the dispatched message %s", f, o.queue[0].m)
	}
	if f := p.peek(); f != nil {
		p.fail("C11", "unexpected fact: %s", f)
	}
}

// enabled checks the options that a fact says are in effect.
func (p *factParser) enabled(f *factRec) {
	types := map[configkit.HandlerType]bool{}
	names := map[string]bool{}
	for _, t := range configkit.HandlerTypes {
		types[t] = true
	}
	for _, x := range p.o.spec.En {
		if x.Kind != "" {
			types[configkit.HandlerType(x.Kind)] = x.On
		} else {
			names[p.c.name(x.H)] = x.On
		}
	}
	if f.Types != enabledTypes(types) || f.Names != enabledNames(names) {
		p.fail("C13 C11", "the options are %s|%s, but %s", enabledTypes(types), enabledNames(names), f)
	}
}

func (p *factParser) handler(name string) int {
	for h, s := range p.c.w.app.Handlers {
		if s.Name == name {
			return h
		}
	}
	return -1
}

func (p *factParser) skip(f *factRec, h int) {
	en, why := p.o.spec.enabled(p.c.w.app, h)
	if en {
		p.fail("C13", "%s is enabled, but %s", p.c.name(h), f)
	} else if f.Reason != why {
		p.fail("C13", "%s is disabled by %s, but %s", p.c.name(h), why, f)
	}
}

func sameErr(f error, want error) bool {
	if want == nil {
		return f == nil
	}
	return f != nil && errors.Is(f, want)
}

func (p *factParser) ticks(ctx bool) {
	c, o := p.c, p.o
	seen := map[int]bool{}
	for {
		f := p.peek()
		if f == nil || (f.Type != "TickSkipped" && f.Type != "TickBegun") {
			break
		}
		h := p.handler(f.Handler)
		if h < 0 || seen[h] {
			p.fail("C11", "unexpected fact: %s", f)
			return
		}
		seen[h] = true
		p.pos++
		if f.Type == "TickSkipped" {
			p.pos--
			p.skip(f, h)
			p.pos++
			if p.stop {
				return
			}
			continue
		}
		if en, why := o.spec.enabled(c.w.app, h); !en {
			p.fail("C13 C11", "%s is disabled by %s, but %s", c.name(h), why, f)
			return
		}
		at := p.at()
		var hd *handling
		for _, x := range o.ticks {
			if x.h == h {
				hd = x
			}
		}
		var err error
		if hd != nil {
			err = hd.err
			r := hd.calls[0]
			if at > r.i {
				p.fail("C11", "%s was compacted before its tick began", c.name(h))
				return
			}
			p.curH, p.cur = h, nil
			items := []item{{typ: "ProjectionCompactionBegun", lo: at, hi: r.i, noEnv: true}}
			items = append(items, p.actItems(hd, r)...)
			items = append(items, item{typ: "ProjectionCompactionCompleted", lo: r.j, hi: o.end, err: err, noEnv: true, opt: r.fatal()})
			p.items(items, nil)
			if p.stop {
				return
			}
			if r.fatal() {
				p.stop = true
				return
			}
		}
		g := p.want("TickCompleted")
		if g == nil {
			return
		}
		if g.Handler != f.Handler {
			p.fail("C11", "expected %s's tick to be completed, not %s", f.Handler, g)
			return
		}
		if !sameErr(g.Err, err) {
			p.fail("C11 C10", "tick of %s ended with %v, but %s", c.name(h), err, g)
			return
		}
	}
	if ctx || p.stop || (p.short && p.pos >= len(p.fs)) {
		return
	}
	for h := range c.w.app.Handlers {
		if !seen[h] {
			p.fail("C11 C13", "%s was neither ticked nor skipped", c.name(h))
			return
		}
	}
}

// message checks the facts from after a DispatchBegun to its end.
func (p *factParser) message(q *qmsg, begun *factRec) {
	c, o := p.c, p.o
	at := p.at()
	p.env(begun.Env, q, q.prod, q.created, dueOf(q), q.parent)
	if x, ok := c.ids[begun.Env.ID]; ok && x != q {
		p.fail("C12 C09 C14", "%s and %s have the same ID %q", x.m, q.m, begun.Env.ID)
		return
	}
	c.ids[begun.Env.ID] = q

	want := map[int]bool{}
	if q.tmo() {
		want[q.h] = true
	} else {
		for h, s := range c.w.app.Handlers {
			if consumes(s, q.m.K, q.m.T) {
				want[h] = true
			}
		}
	}
	var errs []error
	for {
		f := p.peek()
		if f == nil || (f.Type != "HandlingSkipped" && f.Type != "HandlingBegun") {
			break
		}
		h := p.handler(f.Handler)
		if h < 0 || !want[h] {
			p.fail("C11 C02", "unexpected fact: %s", f)
			return
		}
		delete(want, h)
		if f.Env == nil || f.Env.M != q.m || f.Env.ID != begun.Env.ID {
			p.fail("C11", "the fact %s is not about %s", f, q.m)
			return
		}
		if f.Type == "HandlingSkipped" {
			p.skip(f, h)
			p.pos++
			continue
		}
		p.pos++
		var hd *handling
		for _, x := range q.runs {
			if x.h == h {
				hd = x
			}
		}
		if hd == nil && !q.tmo() {
			p.pos--
			p.fail("C11 C02", "%s was not called, but %s", c.name(h), f)
			return
		}
		p.handling(q, h, hd)
		if p.stop {
			return
		}
		if hd != nil && hd.err != nil {
			errs = append(errs, hd.err)
		}
	}
	f := p.want("DispatchCompleted")
	if f == nil {
		return
	}
	for h := range want {
		p.fail("C11 C02", "%s was neither passed to %s nor skipped", q.m, c.name(h))
		return
	}
	if f.Env == nil || f.Env.M != q.m || f.Env.ID != begun.Env.ID {
		p.fail("C11", "the fact %s is not about %s", f, q.m)
		return
	}
	if (f.Err != nil) != (len(errs) > 0) {
		p.fail("C11", "handlers of %s failed with %v, but %s", q.m, errs, f)
		return
	}
	for _, e := range errs {
		if !errors.Is(f.Err, e) {
			p.fail("C11", "handlers of %s failed with %v, but %s", q.m, errs, f)
			return
		}
	}
	for _, hd := range q.runs {
		for _, r := range hd.calls {
			if r.i < at || r.j > p.at() {
				p.fail("C11", "%s was not called between the facts about it", c.name(hd.h))
				return
			}
		}
	}
	_ = o
}

func dueOf(q *qmsg) int64 {
	if q.tmo() {
		return q.due
	}
	return zeroNS
}

// handling checks the facts from after a HandlingBegun to its end.
func (p *factParser) handling(q *qmsg, h int, hd *handling) {
	c, o := p.c, p.o
	at := p.at()
	p.cur, p.curH = q, h
	var items, clogs []item
	dead := false
	var want error
	if hd == nil {
		items = append(items, item{typ: "ProcessTimeoutIgnored", inst: q.inst, lo: at, hi: o.end})
	} else {
		dead = hd.fatal != nil || hd.breach != ""
		want = hd.err
		if hd.calls[0].i < at {
			p.fail("C11", "%s was called before the handling began", c.name(h))
			return
		}
		items, clogs = p.handlingItems(q, hd, at)
	}
	p.items(items, clogs)
	if p.stop {
		return
	}
	if dead {
		p.stop = true
		return
	}
	f := p.want("HandlingCompleted")
	if f == nil {
		return
	}
	if f.Handler != c.name(h) || f.Env == nil || f.Env.M != q.m {
		p.fail("C11", "expected the handling of %s by %s to be completed, not %s", q.m, c.name(h), f)
		return
	}
	ok := sameErr(f.Err, want)
	if !ok && want != nil && hd != nil {
		for _, e := range hd.errs {
			ok = ok || (e != nil && sameErr(f.Err, e))
		}
	}
	if !ok {
		p.fail("C11", "%s ended with %v, but %s", c.name(h), want, f)
		return
	}
	if hd != nil {
		for _, r := range hd.calls {
			if r.j > p.at() {
				props := "C11"
				if r.b.Meth == mCompact {
					props += " C10"
				}
				p.fail(props, "the handling by %s was completed while %s was running", c.name(h), r.b.Meth)
				return
			}
		}
	}
}

func (p *factParser) handlingItems(q *qmsg, hd *handling, at int) (items, clogs []item) {
	c, o := p.c, p.o
	var main, compact *callRec
	for _, r := range hd.calls {
		switch r.b.Meth {
		case mCommand, mEvent, mTimeout:
			main = r
		case mCompact:
			compact = r
		}
	}
	hi := o.end
	if main != nil {
		hi = main.i
	}
	switch c.hspec(hd.h).Kind {
	case hAgg:
		typ := "AggregateInstanceNotFound"
		it := item{inst: hd.inst, lo: at, hi: hi, opt: main == nil}
		if hd.existed {
			typ = "AggregateInstanceLoaded"
			if main != nil {
				it.root = main.b.Root
			}
		}
		it.typ = typ
		if hd.inst != "" {
			items = append(items, it)
		}
	case hProc:
		switch {
		case q.tmo() || hd.existed:
			it := item{typ: "ProcessInstanceLoaded", inst: hd.inst, lo: at, hi: hi, opt: main == nil}
			if main != nil {
				it.root = main.b.Root
			}
			items = append(items, it)
		case hd.inst == "":
			if hd.err == nil && hd.fatal == nil && hd.breach == "" {
				items = append(items, item{typ: "ProcessEventIgnored", lo: at, hi: o.end})
			}
		default:
			items = append(items, item{typ: "ProcessInstanceNotFound", inst: hd.inst, lo: at, hi: hi, opt: main == nil})
			it := item{typ: "ProcessInstanceBegun", inst: hd.inst, lo: at, hi: hi, opt: main == nil}
			if main != nil {
				it.root = main.b.Root
			}
			items = append(items, it)
		}
	case hProj:
		if c.w.sc.Compact && (main != nil || compact != nil) {
			it := item{typ: "ProjectionCompactionBegun", lo: at, hi: hi, noEnv: true}
			if compact != nil {
				it.hi = compact.i
			}
			items = append(items, it)
		}
	}
	if main != nil {
		items = append(items, p.actItems(hd, main)...)
	}
	if c.hspec(hd.h).Kind == hProj && compact != nil {
		it := item{typ: "ProjectionCompactionCompleted", lo: compact.j, hi: o.end, noEnv: true, opt: hd.fatal != nil}
		if compact.out() == outErr {
			it.err = compact.e.V.(error)
		}
		items = append(items, it)
		clogs = p.actItems(hd, compact)
	}
	return items, clogs
}

// actItems lists the facts that result from a call's use of its scope.
func (p *factParser) actItems(hd *handling, r *callRec) []item {
	kind := p.c.hspec(hd.h).Kind
	title := map[string]string{hAgg: "Aggregate", hProc: "Process", hIntg: "Integration", hProj: "Projection"}[kind]
	live, destroyed, ended := hd.existed, false, false
	var l []item
	add := func(a *actRec, it item) {
		it.inst = hd.inst
		it.lo, it.hi = a.i, a.j
		it.noEnv = r.b.Meth == mCompact
		if a.e.Out != outOK {
			it.opt = true
		}
		l = append(l, it)
	}
	for _, a := range r.acts {
		if a.e == nil {
			continue
		}
		ok := a.e.Out == outOK
		breach := !ok && !injectedPanic(a.e.V) && a.e.Out != outExit && !unexpText(a.e.V)
		child := &qmsg{m: a.b.M, due: a.b.T, h: hd.h, inst: hd.inst}
		switch a.b.S {
		case "record":
			if breach {
				continue
			}
			if kind == hAgg {
				if !live {
					if destroyed {
						add(a, item{typ: "AggregateInstanceDestructionReverted"})
					} else {
						add(a, item{typ: "AggregateInstanceCreated"})
					}
					live, destroyed = true, false
				}
			}
			add(a, item{typ: "EventRecordedBy" + title, child: child})
		case "execute", "schedule":
			if breach {
				continue
			}
			if ended {
				add(a, item{typ: "ProcessInstanceEndingReverted"})
				ended = false
			}
			if a.b.S == "execute" {
				add(a, item{typ: "CommandExecutedByProcess", child: child})
			} else {
				add(a, item{typ: "TimeoutScheduledByProcess", child: child})
			}
		case "end":
			if !ended {
				add(a, item{typ: "ProcessInstanceEnded"})
				ended = true
			}
		case "destroy":
			if live {
				add(a, item{typ: "AggregateInstanceDestroyed"})
				live, destroyed = false, true
			}
		case "log":
			add(a, item{typ: "MessageLoggedBy" + title, log: a.b.S2})
		}
	}
	return l
}

// items matches facts with what must be reported. clogs are the log messages
// of a compaction that runs in parallel.
func (p *factParser) items(items, clogs []item) {
	c := p.c
	started := false
	for k := 0; k < len(items); {
		it := &items[k]
		f := p.peek()
		if f != nil && started && len(clogs) > 0 && f.Type == "MessageLoggedByProjection" && f.Env == nil {
			if f.Log != clogs[0].log || f.Handler != c.name(p.curH) || p.idx() < clogs[0].lo {
				p.fail("C11", "expected the log message %q, not %s", clogs[0].log, f)
				return
			}
			clogs = clogs[1:]
			p.pos++
			continue
		}
		if f == nil || f.Type != it.typ {
			if it.opt {
				k++
				continue
			}
			if f == nil && p.short {
				p.stop = true
				return
			}
			if f == nil {
				p.fail("C11", "the fact %s is missing at the end of operation %d", it.typ, p.o.op)
			} else {
				p.fail("C11", "expected the fact %s, not %s", it.typ, f)
			}
			return
		}
		switch {
		case f.Handler != c.name(p.curH):
			p.fail("C11", "expected a fact about %s, not %s", c.name(p.curH), f)
		case f.Inst != it.inst && it.inst != "" && !it.noEnv:
			p.fail("C11", "expected a fact about instance %q, not %s", it.inst, f)
		case !it.noEnv && (f.Env == nil || f.Env.M != p.cur.m):
			p.fail("C11", "expected a fact about %s, not %s", p.cur.m, f)
		case f.Log != it.log:
			p.fail("C11", "expected the log message %q, not %s", it.log, f)
		case p.idx() < it.lo || p.idx() > it.hi:
			props := "C11"
			if it.noEnv {
				props += " C10"
			}
			p.fail(props, "reported too early or too late: %s", f)
		case it.root != nil && f.HasRoot && !eqU(f.Root, it.root):
			p.fail("C11", "the root is %v, but %s", it.root, f)
		case it.typ == "ProjectionCompactionCompleted" && !sameErr(f.Err, it.err):
			p.fail("C11 C10", "compaction ended with %v, but %s", it.err, f)
		case it.child != nil && (f.Child == nil || f.Child.M != it.child.m):
			p.fail("C11", "%s was produced, but %s", it.child.m, f)
		}
		if p.stop {
			return
		}
		if it.child != nil {
			hd := &handling{h: p.curH, inst: it.inst}
			p.env(f.Child, it.child, hd, p.o.now, dueOf(it.child), p.cur)
		}
		if it.typ == "ProjectionCompactionBegun" {
			started = true
		}
		if it.typ == "ProjectionCompactionCompleted" {
			if len(clogs) > 0 && !p.short {
				p.fail("C11", "the log message %q is missing", clogs[0].log)
				return
			}
			started = false
		}
		p.pos++
		k++
	}
}

// env checks an envelope.
func (p *factParser) env(e *envRec, q *qmsg, by *handling, created, due int64, parent *qmsg) {
	if p.stop {
		return
	}
	c := p.c
	if seen := c.envs[q]; seen != nil {
		if *seen != *e {
			p.fail("C12 C11", "the envelope of %s was %+v, and then %+v", q.m, *seen, *e)
		}
		return
	}
	c.envs[q] = e
	switch {
	case e.ID == "":
		p.fail("C12", "%s has no ID", q.m)
	case by == nil && (e.Cause != e.ID || e.Corr != e.ID):
		p.fail("C12", "dispatched message %s has ID %q, cause %q and correlation %q", q.m, e.ID, e.Cause, e.Corr)
	case by == nil && e.Origin:
		p.fail("C12", "dispatched message %s has an origin", q.m)
	case e.Created != created:
		p.fail("C12", "%s was created at %s rather than %s", q.m, tns(e.Created), tns(created))
	case e.Scheduled != due:
		p.fail("C12 C08", "%s is scheduled for %s rather than %s", q.m, tns(e.Scheduled), tns(due))
	case by != nil && (!e.Origin || e.OHandler != c.name(by.h) || e.OType != c.hspec(by.h).Kind || e.OInst != by.originInst(c)):
		p.fail("C12", "%s was produced by %s instance %q, but has origin %+v", q.m, c.name(by.h), by.inst, *e)
	case by != nil && parent != nil && c.envs[parent] != nil:
		pe := c.envs[parent]
		if e.Cause != pe.ID || e.Corr != pe.Corr {
			p.fail("C12", "%s has cause %q and correlation %q, but its cause is %q with correlation %q", q.m, e.Cause, e.Corr, pe.ID, pe.Corr)
		}
	}
}

func (h *handling) originInst(c *checker) string {
	switch c.hspec(h.h).Kind {
	case hAgg, hProc:
		return h.inst
	}
	return ""
}

// runs checks operations that tick the engine repeatedly.
func (c *checker) runs() {
	for op, spec := range c.w.ops {
		if spec.Kind == "run" {
			c.run(int32(op), spec)
		}
	}
}

func (c *checker) run(op int32, spec *OpSpec) {
	start, end := -1, len(c.evs)
	for i := range c.evs {
		if e := &c.evs[i]; e.W == c.w.id && e.Op == op {
			if e.Kind == evOpStart {
				start = i
			} else if e.Kind == evOpEnd {
				end = i
			}
		}
	}
	if start < 0 || end >= len(c.evs) {
		return
	}
	s, e := &c.evs[start], &c.evs[end]
	interval := spec.interval()
	if interval == 0 {
		interval = 250e6 // documented
	}
	factor := spec.Factor
	if factor == 0 && !spec.Scaled {
		factor = 1
	}
	ticks := append([]*opRun(nil), c.byOp[op]...)
	pre := false
	for _, k := range func() []int {
		if len(ticks) > 0 {
			return ticks[0].ctxAt
		}
		return nil
	}() {
		pre = pre || k < start
	}
	if len(ticks) == 0 {
		if spec.Ctx != "pre" {
			c.fail(end, "C15", "run ended with %s %v without a tick", e.Out, e.V)
		}
		return
	}
	prevEnd, prevSim := start, s.Sim
	for n, t := range ticks {
		b := &c.evs[t.start]
		stalls := c.stallsBetween(prevEnd, t.start)
		d := b.Sim - prevSim
		want := interval
		if n == 0 {
			want = 0
		}
		var late int64
		if d > want+stalls && c.occupied(op, prevSim+want, b.Sim) {
			// It may have waited before the tick was reported.
			late = d - want - stalls
		}
		if d < want || d > want+stalls+late {
			c.fail(t.start, "C15", "tick %d of a run began %v after the last, rather than %v", n, d, want)
			return
		}
		// Engine time.
		base := s.Sim
		if spec.Epoch != nil && (spec.Factor != 0 || spec.Scaled) {
			base = epochNS + int64(*spec.Epoch)*1e6
		}
		all := c.stallsBetween(start, t.start)
		el := float64(b.Sim - s.Sim)
		lo, hi := (el-float64(late))*factor, el*factor
		lo, hi = min(lo, hi), max(lo, hi)
		slack := float64(all)*max(1, math.Abs(factor)) + float64(all) + 1000 + math.Abs(el*factor)*1e-9
		got := float64(t.now - base)
		if got < lo-slack || got > hi+slack {
			c.fail(t.start, "C15", "tick %d of a run, %vns after it began, has engine time %s; the factor is %v", n, el, tns(t.now), factor)
			return
		}
		if n < len(ticks)-1 && t.out != outOK {
			c.fail(t.end, "C15", "run went on after a tick ended with %s %v", t.out, t.v)
			return
		}
		prevEnd, prevSim = t.end, c.evs[min(t.end, len(c.evs)-1)].Sim
	}
	last := ticks[len(ticks)-1]
	switch e.Out {
	case outOK:
		c.fail(end, "C15", "run returned without an error")
	case outErr:
		if last.out == outErr {
			if a, b := fmt.Sprint(last.v), fmt.Sprint(e.V); a != b {
				c.fail(end, "C15", "a tick ended with %s, but the run with %s", a, b)
			}
			return
		}
		if !isCtxErr(e.V) {
			c.fail(end, "C15 C03", "run ended with %v, but no tick failed", e.V)
			return
		}
		if !c.mayCancel(last, end) {
			c.fail(end, "C15 C04", "run ended with %v, but its context had not ended", e.V)
			return
		}
		// It was waiting for the next tick when the context ended.
		at := last.ctxT
		from := last.end
		for _, k := range last.ctxAt {
			if k < end && (at == 0 || c.evs[k].Sim < at) {
				at = c.evs[k].Sim
			}
		}
		at = max(at, c.evs[last.end].Sim)
		if d := e.Sim - at; d > c.stallsBetween(from, end) {
			c.fail(end, "C15 C04", "run returned %v after its context ended", d)
		}
	}
	// A cancellation while the run sleeps must not be followed by a tick.
	for _, k := range last.ctxAt {
		if !c.evs[k].OK || k < start || k > end {
			continue
		}
		for n, t := range ticks {
			if n > 0 && ticks[n-1].end < k && k < t.start && c.evs[t.start].Sim-c.evs[k].Sim > c.stallsBetween(k, t.start) {
				c.fail(t.start, "C15 C04", "run ticked again after its context ended while it waited")
			}
		}
	}
	for _, t := range ticks {
		if at := last.ctxT; at != 0 && c.evs[t.start].Sim > at && c.stallsBetween(start, end) == 0 {
			c.fail(t.start, "C15 C04", "run ticked after its deadline")
		}
	}
	_ = pre
}
