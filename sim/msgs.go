package main

import (
	"errors"
	"fmt"

	"github.com/dogmatiq/dogma"
)

// The simulated application's message types: six types each of commands,
// events and timeouts. Messages of type 1 are pointers, and those of type 3
// can not be compared by ==.
type (
	T0 struct{}
	T2 struct{}
	T3 struct{ list []int }
	T4 struct{}
	T5 struct{}
)

const numTypes = 6

// Message kinds.
const (
	kCmd = iota
	kEvt
	kTmo
)

// body is the content of a message.
type body struct {
	N    int    // index of the script that handlers follow for this message
	Inst string // instance that the message is routed to
	Bad  bool   // the message is invalid
	Tag  uint64 // identifies the message uniquely within a run, if non-zero
}

func (b body) MessageDescription() string { return fmt.Sprintf("m%d/%s/%d", b.N, b.Inst, b.Tag) }
func (b body) get() body                  { return b }
func (b body) check() error {
	if b.Bad {
		return errors.New("<bad message>")
	}
	return nil
}

type Cmd[T any] struct {
	body
	x T
}
type Evt[T any] struct {
	body
	x T
}
type Tmo[T any] struct {
	body
	x T
}

func (m Cmd[T]) Validate(dogma.CommandValidationScope) error { return m.check() }
func (m Evt[T]) Validate(dogma.EventValidationScope) error   { return m.check() }
func (m Tmo[T]) Validate(dogma.TimeoutValidationScope) error { return m.check() }

func (Cmd[T]) key() (int, int) { return kCmd, typeIndex[T]() }
func (Evt[T]) key() (int, int) { return kEvt, typeIndex[T]() }
func (Tmo[T]) key() (int, int) { return kTmo, typeIndex[T]() }

// Messages of type 1.
type (
	CmdP struct{ body }
	EvtP struct{ body }
	TmoP struct{ body }
)

func (m *CmdP) Validate(dogma.CommandValidationScope) error { return m.check() }
func (m *EvtP) Validate(dogma.EventValidationScope) error   { return m.check() }
func (m *TmoP) Validate(dogma.TimeoutValidationScope) error { return m.check() }

func (*CmdP) key() (int, int) { return kCmd, 1 }
func (*EvtP) key() (int, int) { return kEvt, 1 }
func (*TmoP) key() (int, int) { return kTmo, 1 }

func typeIndex[T any]() int {
	var v T
	switch any(v).(type) {
	case T0:
		return 0
	case T2:
		return 2
	case T3:
		return 3
	case T4:
		return 4
	}
	return 5
}

// ref identifies a message in the recorded history.
type ref struct {
	K, T int
	body
}

func (r ref) String() string {
	if r.K < 0 {
		return "-"
	}
	return fmt.Sprintf("%s%d(n=%d inst=%q tag=%d)", [...]string{"C", "E", "X"}[r.K], r.T, r.N, r.Inst, r.Tag)
}

func refOf(m dogma.Message) ref {
	if x, ok := m.(interface {
		key() (int, int)
		get() body
	}); ok {
		k, t := x.key()
		return ref{k, t, x.get()}
	}
	return ref{K: -1}
}

func mkCmd(t int, b body) dogma.Command {
	switch t {
	case 0:
		return Cmd[T0]{body: b}
	case 1:
		return &CmdP{b}
	case 2:
		return Cmd[T2]{body: b}
	case 3:
		return Cmd[T3]{b, T3{[]int{b.N}}}
	case 4:
		return Cmd[T4]{body: b}
	}
	return Cmd[T5]{body: b}
}

func mkEvt(t int, b body) dogma.Event {
	switch t {
	case 0:
		return Evt[T0]{body: b}
	case 1:
		return &EvtP{b}
	case 2:
		return Evt[T2]{body: b}
	case 3:
		return Evt[T3]{b, T3{[]int{b.N}}}
	case 4:
		return Evt[T4]{body: b}
	}
	return Evt[T5]{body: b}
}

func mkTmo(t int, b body) dogma.Timeout {
	switch t {
	case 0:
		return Tmo[T0]{body: b}
	case 1:
		return &TmoP{b}
	case 2:
		return Tmo[T2]{body: b}
	case 3:
		return Tmo[T3]{b, T3{[]int{b.N}}}
	case 4:
		return Tmo[T4]{body: b}
	}
	return Tmo[T5]{body: b}
}

type cmdRoutes struct {
	handles  interface{ dogma.AggregateRoute }
	handlesI interface{ dogma.IntegrationRoute }
	executes dogma.ProcessRoute
}

func cmdRoute(t int) cmdRoutes {
	f := func(h dogma.HandlesCommandRoute, x dogma.ExecutesCommandRoute) cmdRoutes { return cmdRoutes{h, h, x} }
	switch t {
	case 0:
		return f(dogma.HandlesCommand[Cmd[T0]](), dogma.ExecutesCommand[Cmd[T0]]())
	case 1:
		return f(dogma.HandlesCommand[*CmdP](), dogma.ExecutesCommand[*CmdP]())
	case 2:
		return f(dogma.HandlesCommand[Cmd[T2]](), dogma.ExecutesCommand[Cmd[T2]]())
	case 3:
		return f(dogma.HandlesCommand[Cmd[T3]](), dogma.ExecutesCommand[Cmd[T3]]())
	case 4:
		return f(dogma.HandlesCommand[Cmd[T4]](), dogma.ExecutesCommand[Cmd[T4]]())
	}
	return f(dogma.HandlesCommand[Cmd[T5]](), dogma.ExecutesCommand[Cmd[T5]]())
}

type evtRoutes struct {
	recordsA dogma.AggregateRoute
	recordsI dogma.IntegrationRoute
	handlesP dogma.ProcessRoute
	handlesJ dogma.ProjectionRoute
}

func evtRoute(t int) evtRoutes {
	f := func(r dogma.RecordsEventRoute, h dogma.HandlesEventRoute) evtRoutes { return evtRoutes{r, r, h, h} }
	switch t {
	case 0:
		return f(dogma.RecordsEvent[Evt[T0]](), dogma.HandlesEvent[Evt[T0]]())
	case 1:
		return f(dogma.RecordsEvent[*EvtP](), dogma.HandlesEvent[*EvtP]())
	case 2:
		return f(dogma.RecordsEvent[Evt[T2]](), dogma.HandlesEvent[Evt[T2]]())
	case 3:
		return f(dogma.RecordsEvent[Evt[T3]](), dogma.HandlesEvent[Evt[T3]]())
	case 4:
		return f(dogma.RecordsEvent[Evt[T4]](), dogma.HandlesEvent[Evt[T4]]())
	}
	return f(dogma.RecordsEvent[Evt[T5]](), dogma.HandlesEvent[Evt[T5]]())
}

func tmoRoute(t int) dogma.ProcessRoute {
	switch t {
	case 0:
		return dogma.SchedulesTimeout[Tmo[T0]]()
	case 1:
		return dogma.SchedulesTimeout[*TmoP]()
	case 2:
		return dogma.SchedulesTimeout[Tmo[T2]]()
	case 3:
		return dogma.SchedulesTimeout[Tmo[T3]]()
	case 4:
		return dogma.SchedulesTimeout[Tmo[T4]]()
	}
	return dogma.SchedulesTimeout[Tmo[T5]]()
}
