package main

import (
	"context"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/dogmatiq/testkit"
)

// SatScen is a user-defined expectation driven by several goroutines.
type SatScen struct {
	Wrap string `json:",omitempty"` // "", all, any, not, none
	Stop string
	Late bool `json:",omitempty"` // goroutines are joined by a clean-up function
	Same bool `json:",omitempty"` // messages may be the same
	Gs   [][]SatStep
}

// SatStep is a step of a goroutine. The first goroutine is that of the
// function.
type SatStep struct {
	Op   string
	D    int       `json:",omitempty"`
	Kids []SatStep `json:",omitempty"` // of a clean-up function
}

type satWorld struct {
	*World
	sc *SatScen
	wg *sync.WaitGroup
}

func newSatWorld(id int32, sc *SatScen) world {
	return &satWorld{World: newWorld(id, &AppSpec{Handlers: []*HSpec{{Kind: hProj, Name: "<p>", In: []int{0}}}}), sc: sc}
}

func (w *satWorld) setup(wg *sync.WaitGroup) {
	w.wg = wg
	wg.Add(1)
	spawn(func() {
		defer wg.Done()
		if w.sc.Stop != "exit" && !w.sc.exits() {
			w.main()
			return
		}
		done := make(chan struct{})
		go func() {
			defer runtime.SimWake()
			defer close(done)
			runtime.SimRegister()
			runtime.SimPark(0)
			w.main()
		}()
		<-done
		yield()
	})
}

func (w *satWorld) note(s string, n int64, v any) {
	add(&Ev{Kind: evNote, W: w.id, Op: 0, H: -1, S: s, N: n, V: v})
}

func (w *satWorld) main() {
	e := Ev{Kind: evOpStart, W: w.id, H: -1, S: "expect", M: ref{K: -1}}
	add(&e)
	done := false
	defer func() {
		e.Kind = evOpEnd
		if !done {
			e.V = recover()
			e.Out = outPanic
			if e.V == nil || e.V == any(testStop{}) {
				e.Out = outExit
			}
		}
		add(&e)
	}()
	x := testkit.ToSatisfy("<criteria>", w.function)
	switch w.sc.Wrap {
	case "all":
		x = testkit.AllOf(x, testkit.ToSatisfy("<true>", func(*testkit.SatisfyT) {}))
	case "any":
		x = testkit.AnyOf(testkit.ToSatisfy("<false>", func(t *testkit.SatisfyT) { t.Fail() }), x)
	case "not":
		x = testkit.Not(x)
	case "none":
		x = testkit.NoneOf(x, testkit.ToSatisfy("<false>", func(t *testkit.SatisfyT) { t.FailNow() }))
	}
	t := testkit.BeginContext(context.Background(), &simT{w.World, w.sc.Stop}, app{w.World})
	t.Expect(testkit.Call(func() {}), x)
	done = true
}

// function is the user-defined expectation.
func (w *satWorld) function(t *testkit.SatisfyT) {
	w.note("fn{", 0, nil)
	defer w.note("fn}", 0, nil)
	var join []chan struct{}
	wait := func() {
		for _, c := range join {
			<-c
			yield()
		}
	}
	if w.sc.Late {
		id := int64(newCall())
		w.use("cleanup", id, func() bool {
			t.Cleanup(func() {
				w.note("run", id, nil)
				defer w.note("ran", id, nil)
				wait()
			})
			return false
		})
	} else {
		defer wait()
	}
	for i, g := range w.sc.Gs {
		if i == 0 {
			continue
		}
		c := make(chan struct{})
		join = append(join, c)
		w.wg.Add(1)
		spawn(func() {
			defer w.wg.Done()
			defer close(c)
			// A goroutine that calls FailNow() or similar must deal with the
			// consequences itself.
			defer func() { recover() }()
			w.script(t, g)
		})
	}
	if len(w.sc.Gs) > 0 {
		w.script(t, w.sc.Gs[0])
	}
}

// use records the use of a method.
func (w *satWorld) use(name string, id int64, f func() bool) {
	e := Ev{Kind: evAct, W: w.id, H: -1, S: name, N: id, M: ref{K: -1}, T: zeroNS}
	add(&e)
	e.Kind, e.Out = evActEnd, outPanic
	defer func() { add(&e) }()
	e.OK = f()
	e.Out = outOK
}

const satFormat = "<L%d: %d+%d 7%%d %s>"

func (w *satWorld) textArgs(id int64) []any {
	if w.sc.Same {
		id %= 2
	}
	return []any{id, id, id * 7, "whole message"}
}

func (w *satWorld) text(id int64) string { return fmt.Sprintf(satFormat, w.textArgs(id)...) }

func (w *satWorld) script(t *testkit.SatisfyT, steps []SatStep) {
	for i := range steps {
		yield()
		s := &steps[i]
		id := int64(newCall())
		text := w.text(id)
		use := func(f func()) { w.use(s.Op, id, func() bool { f(); return false }) }
		switch s.Op {
		case "log":
			use(func() { t.Log(text) })
		case "logf":
			use(func() { t.Logf(satFormat, w.textArgs(id)...) })
		case "error":
			use(func() { t.Error(text) })
		case "errorf":
			use(func() { t.Errorf("%s", text) })
		case "fail":
			use(func() { t.Fail() })
		case "failnow":
			use(func() { t.FailNow() })
		case "fatal":
			use(func() { t.Fatal(text) })
		case "fatalf":
			use(func() { t.Fatalf("%s", text) })
		case "skip":
			use(func() { t.Skip(text) })
		case "skipf":
			use(func() { t.Skipf("%s", text) })
		case "skipnow":
			use(func() { t.SkipNow() })
		case "failed":
			w.use("failed", id, t.Failed)
		case "skipped":
			w.use("skipped", id, t.Skipped)
		case "helper":
			use(func() { t.Helper() })
		case "name":
			use(func() { t.Name() })
		case "parallel":
			use(func() { t.Parallel() })
		case "cleanup":
			use(func() {
				t.Cleanup(func() {
					w.note("run", id, nil)
					defer w.note("ran", id, nil)
					yield()
					w.script(t, s.Kids)
				})
			})
		case "yield":
			for k := 0; k <= s.D; k++ {
				runtime.SimPark(0)
			}
		case "sleep":
			sleep(time.Duration(s.D) * time.Millisecond)
		case "panic":
			v := newPanic("panic of the function", int32(id))
			w.note("fnpanic", id, v)
			panic(v)
		case "goexit":
			w.note("fnexit", id, nil)
			runtime.Goexit()
		}
	}
}

var (
	satLogs  = map[string]bool{"log": true, "logf": true, "error": true, "errorf": true, "fatal": true, "fatalf": true, "skip": true, "skipf": true}
	satFails = map[string]bool{"error": true, "errorf": true, "fail": true, "failnow": true, "fatal": true, "fatalf": true}
	satSkips = map[string]bool{"skip": true, "skipf": true, "skipnow": true}
	satStops = map[string]bool{"failnow": true, "fatal": true, "fatalf": true, "skip": true, "skipf": true, "skipnow": true}
)

func (w *satWorld) check(evs []Ev, st *stats, r *runResult) {
	fail := func(at int, f string, args ...any) {
		r.viols = append(r.viols, viol{"C22", fmt.Sprintf(f, args...), at})
	}
	type use struct {
		op         string
		id         int64
		start, end int
		out        outcome
		res        bool
		runs       []int
		due        int // end of the function or clean-up that ran before
	}
	var uses []*use
	byID := map[int64]*use{}
	fnEnd, opEnd, last := len(evs), -1, -1
	var report string
	failed := false
	var panics []any
	exits := false
	var out outcome
	var val any
	for i := range evs {
		e := &evs[i]
		if e.W != w.id {
			continue
		}
		switch e.Kind {
		case evAct:
			u := &use{op: e.S, id: e.N, start: i, end: len(evs)}
			uses = append(uses, u)
			byID[e.N] = u
		case evActEnd:
			u := byID[e.N]
			u.end, u.out, u.res = i, e.Out, e.OK
		case evOpEnd:
			opEnd, out, val = i, e.Out, e.V
		case evNote:
			switch e.S {
			case "fn}":
				fnEnd, last = i, i
			case "run":
				if u := byID[e.N]; u != nil {
					u.runs = append(u.runs, i)
					u.due = last
				}
			case "ran":
				last = i
			case "report":
				report, _ = e.V.(string)
			case "fatal", "failnow":
				failed = true
			case "fnpanic":
				panics = append(panics, e.V)
			case "fnexit":
				exits = true
			}
		}
	}
	if opEnd < 0 {
		return // reported as stuck
	}
	anyFail, anySkip := false, false
	for _, u := range uses {
		anyFail = anyFail || satFails[u.op]
		anySkip = anySkip || satSkips[u.op]
		if satStops[u.op] && u.out == outOK {
			fail(u.end, "%s returned to its caller", u.op)
		}
		if !satStops[u.op] && u.out != outOK {
			fail(u.end, "%s panicked", u.op)
		}
		if u.op == "failed" || u.op == "skipped" {
			set := satFails
			if u.op == "skipped" {
				set = satSkips
			}
			before, maybe := false, false
			for _, v := range uses {
				if set[v.op] {
					before = before || v.end < u.start
					maybe = maybe || v.start < u.end
				}
			}
			if before && !u.res || !maybe && u.res {
				fail(u.end, "%s is reported as %v", u.op, u.res)
			}
		}
	}
	// Clean-up.
	for _, u := range uses {
		if u.op != "cleanup" {
			continue
		}
		if len(u.runs) != 1 {
			fail(opEnd, "clean-up function %d ran %d times", u.id, len(u.runs))
			continue
		}
		if u.runs[0] < fnEnd {
			fail(u.runs[0], "clean-up function %d ran before the function ended", u.id)
		}
		for _, v := range uses {
			if v.op == "cleanup" && len(v.runs) == 1 && u.end < v.start && v.end < u.due && u.runs[0] < v.runs[0] {
				fail(u.runs[0], "clean-up function %d ran before %d, which was registered later", u.id, v.id)
			}
		}
	}
	if exits {
		if out != outExit && (out != outPanic || !slices.Contains(panics, val)) {
			fail(opEnd, "the function ended its goroutine, but the step ended with %v %v", out, val)
		}
		return
	}
	if len(panics) > 0 {
		if out != outPanic || !slices.Contains(panics, val) {
			fail(opEnd, "the function panicked with %v, but the step ended with %v %v", panics, out, val)
		}
		return
	}
	if out == outPanic {
		fail(opEnd, "the expectation panicked: %v", val)
		return
	}
	met := anySkip || !anyFail
	inverted := w.sc.Wrap == "not" || w.sc.Wrap == "none"
	if inverted {
		met = !met
	}
	if failed == met {
		fail(opEnd, "the test failed=%v, but the function failed=%v skipped=%v", failed, anyFail, anySkip)
	}
	if inverted {
		return
	}
	n := map[string]int{}
	for _, l := range strings.Split(report, "\n") {
		n[strings.TrimLeft(l, " |")]++
	}
	total := 0
	logged := map[string]int{}
	for _, u := range uses {
		if satLogs[u.op] {
			total++
			logged[w.text(u.id)]++
		}
	}
	for _, u := range uses {
		if satLogs[u.op] {
			if t := w.text(u.id); n[t] != logged[t] {
				fail(opEnd, "message %d, logged by %s, appears %d times in the report, but was logged %d times", u.id, u.op, n[t], logged[t])
			}
		}
	}
	if c := strings.Count(report, "<L"); c != total {
		fail(opEnd, "the report contains %d log messages rather than %d", c, total)
	}
	if st != nil {
		st.Count["logged messages"] += int64(total)
	}
}

func genSat(r *rng) *SatScen {
	sc := &SatScen{
		Wrap: pick(r, []string{"", "", "", "all", "any", "not", "none"}),
		Stop: pick(r, []string{"panic", "exit", "return"}),
		Late: r.p(1, 3),
		Same: r.p(1, 6),
	}
	stop, weird, steps := r.n(12), r.n(12), 6
	if r.p(1, 60) {
		stop, weird, steps = 0, 0, 20+r.n(60)
	}
	for i := 1 + r.n(4); i > 0; i-- {
		sc.Gs = append(sc.Gs, genSatSteps(r, len(sc.Gs), 1+r.n(steps), stop, weird, 2))
	}
	return sc
}

func genSatSteps(r *rng, g, n, stop, weird, depth int) []SatStep {
	var l []SatStep
	for i := 0; i < n; i++ {
		x := r.n(100)
		switch {
		case x < 25:
			l = append(l, SatStep{Op: pick(r, []string{"log", "logf", "log"})})
		case x < 37:
			l = append(l, SatStep{Op: pick(r, []string{"error", "errorf", "fail"})})
		case x < 52:
			l = append(l, SatStep{Op: pick(r, []string{"failed", "skipped"})})
		case x < 60:
			l = append(l, SatStep{Op: pick(r, []string{"helper", "name", "parallel", "helper"})})
		case x < 78:
			s := SatStep{Op: "cleanup"}
			if depth > 0 {
				s.Kids = genSatSteps(r, 0, r.n(3), stop, weird, depth-1)
			}
			l = append(l, s)
		case x < 86:
			l = append(l, SatStep{Op: "yield", D: r.n(4)})
		case x < 88:
			l = append(l, SatStep{Op: "sleep", D: pick(r, sleeps)})
		case x < 88+stop:
			return append(l, SatStep{Op: pick(r, []string{"failnow", "fatal", "fatalf", "skip", "skipf", "skipnow"})})
		case g == 0 && r.n(40) < weird:
			return append(l, SatStep{Op: pick(r, []string{"panic", "panic", "goexit"})})
		}
	}
	return l
}

// exits returns true if the function may end its goroutine.
func (sc *SatScen) exits() bool {
	var in func(l []SatStep) bool
	in = func(l []SatStep) bool {
		for _, s := range l {
			if s.Op == "goexit" || in(s.Kids) {
				return true
			}
		}
		return false
	}
	for _, g := range sc.Gs {
		if in(g) {
			return true
		}
	}
	return false
}

func (sc *SatScen) valid() error {
	switch sc.Wrap {
	case "", "all", "any", "not", "none":
	default:
		return fmt.Errorf("wrap")
	}
	if sc.Stop != "panic" && sc.Stop != "exit" && sc.Stop != "return" {
		return fmt.Errorf("stop")
	}
	for i, g := range sc.Gs {
		for _, s := range g {
			if s.Op == "" || i > 0 && (s.Op == "panic" || s.Op == "goexit") {
				return fmt.Errorf("step")
			}
		}
	}
	return nil
}
