package main

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/dogmatiq/configkit"
	"github.com/dogmatiq/testkit/engine"
	"github.com/dogmatiq/testkit/fact"
)

// stats counts what runs did. All of its fields are sums.
type stats struct {
	Runs      int64
	Nontriv   int64
	Steps     int64
	Switches  int64 // scheduling decisions with a choice
	Preempts  int64
	Tasks     int64
	SimMs     int64
	Events    int64
	HistFull  int64
	Stuck     int64
	Truncated int64
	Count     map[string]int64
}

func newStats() *stats { return &stats{Count: map[string]int64{}} }

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Nontriv += o.Nontriv
	s.Steps += o.Steps
	s.Switches += o.Switches
	s.Preempts += o.Preempts
	s.Tasks += o.Tasks
	s.SimMs += o.SimMs
	s.Events += o.Events
	s.HistFull += o.HistFull
	s.Stuck += o.Stuck
	s.Truncated += o.Truncated
	for k, v := range o.Count {
		s.Count[k] += v
	}
}

// runResult is the outcome of one simulated run.
type runResult struct {
	sim   *simResult
	viols []viol
	// known counts occurrences of known findings.
	known   map[string]int64
	nontriv bool
	hash    uint64 // of the interleaving
	hist    uint64 // of the history
}

// firstID returns the ID of the first message dispatched by a new engine.
func firstID() string {
	w := newWorld(0, &AppSpec{Handlers: []*HSpec{{Kind: hProj, Name: "<p>", In: []int{0}}}})
	e := engine.MustNew(configkit.FromApplication(app{w}), engine.EnableProjectionCompactionDuringHandling(false))
	b := &fact.Buffer{}
	if err := e.Dispatch(context.Background(), mkEvt(0, body{}), engine.WithObserver(b)); err != nil {
		panic(err)
	}
	for _, f := range b.Facts() {
		if x, ok := f.(fact.DispatchCycleBegun); ok {
			return x.Envelope.MessageID
		}
	}
	return ""
}

var theFirstID string

// world is a part of a scenario that runs independently of the others.
type world interface {
	setup(wg *sync.WaitGroup)
	check(evs []Ev, st *stats, r *runResult)
}

func (sc *Scenario) worlds() []world {
	var ws []world
	id := int32(0)
	for _, s := range sc.Engines {
		w := newEngineWorld(id, s)
		w.firstID = theFirstID
		ws = append(ws, w)
		id++
	}
	for _, s := range sc.Tests {
		ws = append(ws, newTestWorld(id, s))
		id++
	}
	for _, s := range sc.Buffers {
		ws = append(ws, newBufferWorld(id, s))
		id++
	}
	for _, s := range sc.Sats {
		ws = append(ws, newSatWorld(id, s))
		id++
	}
	return ws
}

func (w *engineWorld) check(evs []Ev, st *stats, r *runResult) {
	c := checkEngine(w, evs, st)
	r.viols = append(r.viols, c.vs...)
	if c.destroyStale > 0 {
		r.known["record-after-destroy"] += int64(c.destroyStale)
	}
	if st != nil {
		st.Count["known:record-after-destroy-checked"] += int64(c.destroyRecord)
		c.count(st)
	}
}

// execute performs a run and decides whether it breaches any property. If the
// run cannot end, stuck is called with the result, and must not return.
func execute(sc *Scenario, st *stats, stuck func(*runResult)) *runResult {
	histReset()
	races := raceErrors()
	r := &runResult{known: map[string]int64{}}
	ws := sc.worlds()
	var wg sync.WaitGroup
	finish := func(res *simResult) {
		r.sim = res
		evs := events()
		if hist.full {
			if st != nil {
				st.HistFull++
			}
		} else if !exitElsewhere(evs) {
			for _, w := range ws {
				w.check(evs, st, r)
			}
			for i := range evs {
				if evs[i].Kind == evNote && evs[i].S == "cross" {
					r.viols = append(r.viols, viol{"C25", fmt.Sprintf("a handler of world %d was called by an operation of world %d", evs[i].W, evs[i].N), i})
				}
				if evs[i].Kind == evFact && !evs[i].V.(*factRec).same() {
					r.viols = append(r.viols, viol{"C11", "the fact has changed since it was told", i})
				}
				if evs[i].Kind == evNote && evs[i].S == "context" {
					r.viols = append(r.viols, viol{evs[i].S2, fmt.Sprintf("the context of a call %s that of its operation", evs[i].V), i})
				}
			}
		}
		if n := raceErrors() - races; n > 0 {
			r.viols = append(r.viols, viol{"RACE", fmt.Sprintf("%d data races were detected", n), len(evs) - 1})
		}
		r.hash = mix(res.hash, uint64(len(res.picks)))
		r.hist = histHash(evs)
		r.nontriv = nontrivial(sc, evs, res)
		if st != nil {
			st.Runs++
			if r.nontriv {
				st.Nontriv++
			}
			st.Steps += int64(res.steps)
			st.Switches += int64(res.multi)
			st.Preempts += int64(res.preempted)
			st.SimMs += int64(res.simTime / time.Millisecond)
			st.Events += int64(len(evs))
			countFaults(st, evs, res)
		}
	}
	res := simulate(sc.Sched,
		func() {
			for _, w := range ws {
				w.setup(&wg)
			}
		},
		func() { wg.Wait() },
		func(res *simResult) {
			finish(res)
			if st != nil {
				st.Stuck++
			}
			if !exitElsewhere(events()) {
				r.viols = append(r.viols, stuckViol(sc, res))
			}
			stuck(r)
		})
	finish(res)
	return r
}

// exitElsewhere returns true if an application method ended its goroutine in an
// operation that makes calls on goroutines other than that of its caller. No
// statement says what becomes of such an operation.
func exitElsewhere(evs []Ev) bool {
	any := false
	for i := range evs {
		any = any || evs[i].Kind == evCallEnd && evs[i].Out == outExit
	}
	if !any {
		return false
	}
	type key struct{ w, op int32 }
	gid := map[key]uint64{}
	tick := map[key]bool{}
	exit := map[key]bool{}
	other := map[key]bool{}
	for i := range evs {
		e := &evs[i]
		k := key{e.W, e.Op}
		switch e.Kind {
		case evOpStart:
			if e.Op >= 0 {
				gid[k] = e.GID
				tick[k] = e.S != "dispatch"
			}
		case evCallEnd:
			exit[k] = exit[k] || e.Out == outExit
			other[k] = other[k] || gid[k] != 0 && e.GID != gid[k] && (e.Meth != mCompact || tick[k])
		}
	}
	for k := range exit {
		if exit[k] && other[k] {
			return true
		}
	}
	return false
}

// stuckViol describes a run in which some task can never proceed.
func stuckViol(sc *Scenario, res *simResult) viol {
	evs := events()
	props := "C01"
	open := ""
	var run, test bool
	for _, e := range sc.Engines {
		for _, c := range e.Clients {
			for _, o := range c {
				run = run || o.Kind == "run"
			}
		}
	}
	test = len(sc.Tests) > 0
	started := map[[2]int32]*Ev{}
	var panics, cancels, compacts, errs, resets bool
	for i := range evs {
		e := &evs[i]
		switch e.Kind {
		case evOpStart:
			started[[2]int32{e.W, e.Op}] = e
			resets = resets || e.S == "reset"
		case evOpEnd:
			delete(started, [2]int32{e.W, e.Op})
		case evCallEnd:
			panics = panics || e.Out == outPanic || e.Out == outExit
			errs = errs || e.Out == outErr
		case evCall:
			compacts = compacts || e.Meth == mCompact
		case evCancel:
			cancels = true
		}
	}
	for _, x := range []struct {
		c bool
		p string
	}{{panics, " C05"}, {cancels, " C04"}, {compacts, " C10"}, {run, " C15"}, {resets, " C14"}, {errs, " C03"}, {test, " C16 C17 C18 C19 C20 C21"}, {len(sc.Sats) > 0, " C22"}, {len(sc.Buffers) > 0, " C23"}, {len(sc.Engines)+len(sc.Tests) > 1, " C25"}} {
		if x.c {
			props += x.p
		}
	}
	for k, e := range started {
		open += fmt.Sprintf(" op%d(%s)", k[1], e.S)
	}
	what := "can never return"
	if res.livelock {
		what = "did not return within the step limit"
	}
	return viol{props, "operations" + open + " " + what, len(evs) - 1}
}

func histHash(evs []Ev) uint64 {
	h := uint64(14695981039346656037)
	for i := range evs {
		for _, b := range []byte(evs[i].String()) {
			h = (h ^ uint64(b)) * 1099511628211
		}
	}
	return h
}

// countFaults counts the faults that were actually met.
func countFaults(st *stats, evs []Ev, res *simResult) {
	c := st.Count
	for i := range evs {
		e := &evs[i]
		switch e.Kind {
		case evOpStart:
			c["op:"+e.S]++
		case evOpEnd:
			if isCtxErr(e.V) {
				c["op-ended:context"]++
			} else {
				c["op-ended:"+e.Out.String()]++
			}
		case evCall:
			c["call:"+e.Meth.String()]++
		case evCallEnd:
			if e.Out != outOK {
				c["fault:"+e.Out.String()+" in "+e.Meth.String()]++
			}
		case evActEnd:
			if e.Out == outCaught {
				c["fault:rejected "+e.S+", caught"]++
			}
		case evCancel:
			if e.OK {
				c["fault:cancelled while blocked"]++
			} else {
				c["fault:cancelled"]++
			}
		case evStall:
			c["fault:stall"]++
		case evNote:
			switch e.S {
			case "obspanic":
				c["fault:observer panic"]++
			case "fnpanic":
				c["fault:panic of the called function"]++
			case "intercept":
				c["intercepted commands"]++
			case "fatal", "failnow":
				c["failed tests"]++
			}
		case evFact:
			c["facts"]++
		}
	}
}

func (c *checker) count(st *stats) {
	for _, o := range c.ops {
		st.Count["modelled operations"]++
		for _, q := range o.queue {
			if q.tick {
				st.Count["timeouts delivered by ticks"]++
			}
		}
		if o.ctxT != 0 && o.end < len(c.evs) && c.evs[o.end].Sim >= o.ctxT {
			st.Count["fault:deadline reached"]++
		}
	}
}

// nontrivial returns true if a run involved the thing the property is about.
func nontrivial(sc *Scenario, evs []Ev, res *simResult) bool {
	var advances, reports, execs, fails, enables int
	var handles, errs, panics, facts, cancels, resets, routes, acts, tmos, proj, compacts, ops, agg, proc int
	open, overlap := 0, false
	for i := range evs {
		e := &evs[i]
		switch e.Kind {
		case evOpStart:
			ops++
			open++
			overlap = overlap || open > 1
			switch e.S {
			case "reset":
				resets++
			case "execute":
				execs++
			case "enable", "disable":
				enables++
			case "act":
				if len(sc.Tests) == 1 {
					switch sc.Tests[0].Acts[e.N].Kind {
					case "by", "to", "adj":
						advances++
					}
				}
			}
		case evOpEnd:
			open--
		case evCall:
			switch e.Meth {
			case mCommand, mEvent, mTimeout:
				handles++
				if e.Meth == mTimeout {
					tmos++
				}
				if e.T != zeroNS && e.S2 != "" {
					proj++
				}
				if e.Root != nil && e.Meth == mCommand {
					agg++
				} else if e.Root != nil {
					proc++
				}
			case mRoute:
				routes++
			case mCompact:
				compacts++
			}
		case evCallEnd:
			if e.Out == outErr {
				errs++
			} else if e.Out == outPanic || e.Out == outExit {
				panics++
			}
		case evAct:
			acts++
		case evCancel:
			cancels++
		case evNote:
			switch e.S {
			case "report":
				reports++
			case "fatal":
				fails++
			}
		case evFact:
			facts++
		}
	}
	switch sc.Prop {
	case "C01":
		return overlap && handles > 0
	case "C02", "C12":
		return handles > 1
	case "C03":
		return errs > 0
	case "C04":
		return cancels > 0
	case "C05":
		return panics > 0
	case "C06":
		return agg > 1
	case "C07":
		return proc > 1
	case "C08":
		return tmos > 0
	case "C09":
		return proj > 0
	case "C10":
		return compacts > 0
	case "C11":
		return facts > 4
	case "C14":
		return resets > 0 && handles > 1
	case "C16":
		return advances > 0
	case "C17", "C18":
		return reports > 0
	case "C19":
		return execs > 0
	case "C20":
		return reports+fails > 0
	case "C21":
		return enables > 0 && routes+handles > 0
	case "C22", "C23":
		return acts > 1
	case "C25":
		return overlap
	}
	return ops > 0 || len(evs) > 0
}
