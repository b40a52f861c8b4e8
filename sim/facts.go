package main

import (
	"fmt"
	"strings"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/envelope"
	"github.com/dogmatiq/testkit/fact"
)

// envRec is a copy of an envelope, made when the observer was notified.
type envRec struct {
	ID, Cause, Corr string
	M               ref
	Created         int64
	Scheduled       int64
	Origin          bool
	OHandler        string
	OType           string
	OInst           string

	src *envelope.Envelope
}

// same returns true if the envelope has not changed since it was copied.
func (r *envRec) same() bool {
	if r == nil {
		return true
	}
	e := r.src
	if e.MessageID != r.ID || e.CausationID != r.Cause || e.CorrelationID != r.Corr || (e.Origin != nil) != r.Origin || ns(e.CreatedAt) != r.Created || ns(e.ScheduledFor) != r.Scheduled || e.Message == nil || refOf(e.Message) != r.M {
		return false
	}
	return e.Origin == nil || e.Origin.Handler.Identity().Name == r.OHandler && e.Origin.HandlerType.String() == r.OType && e.Origin.InstanceID == r.OInst
}

// factRec is a copy of a fact, made when the observer was notified.
type factRec struct {
	Type    string
	Handler string
	Inst    string
	Env     *envRec
	Child   *envRec
	Err     error
	Reason  string
	Now     int64
	Types   string
	Names   string
	Log     string
	Root    []uint64
	HasRoot bool

	src     fact.Fact
	errText string
}

// same returns true if the fact has not changed since it was copied, apart from
// the root, which belongs to the application.
func (f *factRec) same() bool {
	if !f.Env.same() || !f.Child.same() {
		return false
	}
	if f.Err == nil && f.Log == "" && f.Types == "" && f.Names == "" {
		return true
	}
	g := recFact(f.src)
	return g.errText == f.errText && g.Log == f.Log && g.Types == f.Types && g.Names == f.Names
}

func (f *factRec) String() string {
	var b strings.Builder
	b.WriteString(f.Type)
	if f.Handler != "" {
		fmt.Fprintf(&b, " h=%s", f.Handler)
	}
	if f.Inst != "" {
		fmt.Fprintf(&b, " inst=%s", f.Inst)
	}
	if f.Env != nil {
		fmt.Fprintf(&b, " env=#%s<-%s<-%s %s", f.Env.ID, f.Env.Cause, f.Env.Corr, f.Env.M)
	}
	if f.Child != nil {
		fmt.Fprintf(&b, " child=#%s<-%s<-%s %s", f.Child.ID, f.Child.Cause, f.Child.Corr, f.Child.M)
	}
	if f.Err != nil {
		fmt.Fprintf(&b, " err=%v", f.Err)
	}
	if f.Reason != "" {
		fmt.Fprintf(&b, " reason=%s", f.Reason)
	}
	if f.Now != zeroNS {
		fmt.Fprintf(&b, " now=%s", tns(f.Now))
	}
	if f.Types != "" || f.Names != "" {
		fmt.Fprintf(&b, " enabled=%s|%s", f.Types, f.Names)
	}
	if f.Log != "" {
		fmt.Fprintf(&b, " log=%q", f.Log)
	}
	if f.HasRoot {
		fmt.Fprintf(&b, " root=%v", f.Root)
	}
	return b.String()
}

func recEnv(e *envelope.Envelope) *envRec {
	if e == nil {
		return nil
	}
	r := &envRec{
		ID: e.MessageID, Cause: e.CausationID, Corr: e.CorrelationID,
		M: refOf(e.Message), Created: ns(e.CreatedAt), Scheduled: ns(e.ScheduledFor),
		src: e,
	}
	if e.Origin != nil {
		r.Origin = true
		r.OHandler = e.Origin.Handler.Identity().Name
		r.OType = e.Origin.HandlerType.String()
		r.OInst = e.Origin.InstanceID
	}
	return r
}

func handlerName(h configkit.RichHandler) string { return h.Identity().Name }

func enabledTypes(m map[configkit.HandlerType]bool) string {
	s := ""
	for _, t := range configkit.HandlerTypes {
		if v, ok := m[t]; ok {
			s += fmt.Sprintf("%s=%v,", t, v)
		}
	}
	return s
}

func enabledNames(m map[string]bool) string {
	// small maps, so that sorting by repeated minimum is fine
	s, last := "", ""
	for range m {
		best := ""
		for k := range m {
			if k > last && (best == "" || k < best) {
				best = k
			}
		}
		s += fmt.Sprintf("%s=%v,", best, m[best])
		last = best
	}
	return s
}

func rootSnap(f *factRec, r any) {
	switch x := r.(type) {
	case *aggRoot:
		if x != nil {
			f.HasRoot, f.Root = true, snapshot(x.Log)
		}
	case *procRoot:
		if x != nil {
			f.HasRoot, f.Root = true, snapshot(x.Log)
		}
	}
}

func reasonOf(r fact.HandlerSkipReason) string {
	switch r {
	case fact.HandlerTypeDisabled:
		return "type"
	case fact.IndividualHandlerDisabled:
		return "name"
	case fact.IndividualHandlerDisabledByConfiguration:
		return "config"
	}
	return fmt.Sprint("unknown:", r)
}

// recFact copies a fact.
func recFact(f fact.Fact) *factRec {
	r := &factRec{Type: strings.TrimPrefix(fmt.Sprintf("%T", f), "fact."), Now: zeroNS, src: f}
	h := func(c configkit.RichHandler) { r.Handler = handlerName(c) }
	e := func(x *envelope.Envelope) { r.Env = recEnv(x) }
	logged := func(s string, a []any) { r.Log = fmt.Sprintf(s, a...) }
	switch x := f.(type) {
	case fact.DispatchCycleBegun:
		e(x.Envelope)
		r.Now, r.Types, r.Names = ns(x.EngineTime), enabledTypes(x.EnabledHandlerTypes), enabledNames(x.EnabledHandlers)
	case fact.DispatchCycleCompleted:
		e(x.Envelope)
		r.Err, r.Types, r.Names = x.Error, enabledTypes(x.EnabledHandlerTypes), enabledNames(x.EnabledHandlers)
	case fact.DispatchBegun:
		e(x.Envelope)
	case fact.DispatchCompleted:
		e(x.Envelope)
		r.Err = x.Error
	case fact.HandlingBegun:
		h(x.Handler)
		e(x.Envelope)
	case fact.HandlingCompleted:
		h(x.Handler)
		e(x.Envelope)
		r.Err = x.Error
	case fact.HandlingSkipped:
		h(x.Handler)
		e(x.Envelope)
		r.Reason = reasonOf(x.Reason)
	case fact.TickCycleBegun:
		r.Now, r.Types, r.Names = ns(x.EngineTime), enabledTypes(x.EnabledHandlerTypes), enabledNames(x.EnabledHandlers)
	case fact.TickCycleCompleted:
		r.Err, r.Types, r.Names = x.Error, enabledTypes(x.EnabledHandlerTypes), enabledNames(x.EnabledHandlers)
	case fact.TickBegun:
		h(x.Handler)
	case fact.TickCompleted:
		h(x.Handler)
		r.Err = x.Error
	case fact.TickSkipped:
		h(x.Handler)
		r.Reason = reasonOf(x.Reason)
	case fact.AggregateInstanceLoaded:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		rootSnap(r, x.Root)
	case fact.AggregateInstanceNotFound:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.AggregateInstanceCreated:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.AggregateInstanceDestroyed:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.AggregateInstanceDestructionReverted:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.EventRecordedByAggregate:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		r.Child = recEnv(x.EventEnvelope)
	case fact.MessageLoggedByAggregate:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		logged(x.LogFormat, x.LogArguments)
	case fact.ProcessInstanceLoaded:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		rootSnap(r, x.Root)
	case fact.ProcessEventIgnored:
		h(x.Handler)
		e(x.Envelope)
	case fact.ProcessTimeoutIgnored:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.ProcessInstanceNotFound:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.ProcessInstanceBegun:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		rootSnap(r, x.Root)
	case fact.ProcessInstanceEnded:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.ProcessInstanceEndingReverted:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
	case fact.CommandExecutedByProcess:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		r.Child = recEnv(x.CommandEnvelope)
	case fact.TimeoutScheduledByProcess:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		r.Child = recEnv(x.TimeoutEnvelope)
	case fact.MessageLoggedByProcess:
		h(x.Handler)
		e(x.Envelope)
		r.Inst = x.InstanceID
		logged(x.LogFormat, x.LogArguments)
	case fact.EventRecordedByIntegration:
		h(x.Handler)
		e(x.Envelope)
		r.Child = recEnv(x.EventEnvelope)
	case fact.MessageLoggedByIntegration:
		h(x.Handler)
		e(x.Envelope)
		logged(x.LogFormat, x.LogArguments)
	case fact.ProjectionCompactionBegun:
		h(x.Handler)
	case fact.ProjectionCompactionCompleted:
		h(x.Handler)
		r.Err = x.Error
	case fact.MessageLoggedByProjection:
		h(x.Handler)
		e(x.Envelope)
		logged(x.LogFormat, x.LogArguments)
	}
	if r.Err != nil {
		r.errText = r.Err.Error()
	}
	return r
}

// observer records the facts it is notified of. Like an application's, it is
// not safe for concurrent use.
type observer struct {
	w       *World
	op, i   int32
	n       int
	panicAt int
	busy    bool
	after   *bool // set once the operation has returned
}

//go:norace
func (o *observer) enter() bool { b := o.busy; o.busy = true; return b }

//go:norace
func (o *observer) leave() { o.busy = false }

func (o *observer) Notify(f fact.Fact) {
	over := o.enter()
	o.n++
	n := o.n
	e := Ev{Kind: evFact, W: o.w.id, Op: o.op, H: -1, Obs: o.i, V: recFact(f), OK: over}
	add(&e)
	yield()
	o.leave()
	if n == o.panicAt {
		v := newPanic("observer panic", int32(n))
		add(&Ev{Kind: evNote, W: o.w.id, Op: o.op, H: -1, S: "obspanic", V: v})
		panic(v)
	}
}
