package main

import (
	"fmt"
	"strings"
)

// Scenario is everything that determines a run, other than the code under
// test.
type Scenario struct {
	Prop    string
	Engines []*EngineScen `json:",omitempty"`
	Tests   []*TestScen   `json:",omitempty"`
	Buffers []*BufferScen `json:",omitempty"`
	Sats    []*SatScen    `json:",omitempty"`
	Sched   Schedule
}

// knobs are the probabilities, in percent, with which features are used.
type knobs struct {
	clients, ops     int // maxima
	minClients       int
	handlers         int
	types            int // types of each kind of message in use
	agg, proc        int // weights of handler kinds
	intg, proj       int
	tick, reset, run int // percentage of operations
	bad              int
	err, panic       int // per handler script
	unexp, exit      int
	breach, catch    int
	cancelStep       int
	obsPanic         int // per operation
	ctx, en          int
	off              int // per handler
	compact          int
	meet             int
	log, sleep       int
	sched, end       int
	destroy          int
	version          int
	now              int // explicit engine time
	obs              int // maximum number of observers
	minObs           int
	wait             int
	stall            bool
	busy             int // extra steps per handler script
	tmo              int // minimum number of timeout types of a process
	mono             bool
	clock            int
	insts            []string
	budget           int
}

// sometimes returns v in half of all runs.
func sometimes(r *rng, v int) int {
	if r.p(1, 2) {
		return v
	}
	return 0
}

// genKnobs draws the features used by a run, so that different runs combine
// different ones.
func genKnobs(r *rng) *knobs {
	k := &knobs{
		clients: 1 + r.n(4), ops: 2 + r.n(5), handlers: 1 + r.n(6), types: 2 + r.n(5),
		agg: 1 + r.n(4), proc: 1 + r.n(4), intg: 1 + r.n(3), proj: 1 + r.n(3),
		tick: r.n(50), reset: sometimes(r, r.n(25)), run: sometimes(r, r.n(20)),
		bad: sometimes(r, r.n(20)), err: sometimes(r, r.n(40)), panic: sometimes(r, r.n(25)),
		unexp: sometimes(r, r.n(15)), exit: 0, breach: sometimes(r, r.n(25)), catch: r.n(100),
		ctx: sometimes(r, r.n(50)), en: sometimes(r, r.n(60)), off: sometimes(r, r.n(30)),
		compact: 50, meet: sometimes(r, r.n(40)), log: sometimes(r, r.n(60)), sleep: sometimes(r, r.n(40)),
		sched: r.n(80), end: r.n(50), destroy: r.n(50), version: sometimes(r, r.n(15)),
		now: 20 + r.n(80), obs: 1 + r.n(3), wait: sometimes(r, r.n(60)), stall: r.p(1, 4),
		cancelStep: 0, obsPanic: 0, mono: r.p(1, 2), insts: instances,
	}
	if k.ctx > 0 {
		k.cancelStep = sometimes(r, r.n(15))
	}
	if r.p(1, 12) {
		k.obsPanic = r.n(25)
	}
	if r.p(1, 15) {
		k.exit = r.n(20)
	}
	return k
}

// quiet removes all faults.
func (k *knobs) quiet() {
	k.err, k.panic, k.unexp, k.exit, k.breach, k.bad = 0, 0, 0, 0, 0, 0
	k.cancelStep, k.obsPanic, k.ctx, k.version = 0, 0, 0, 0
	k.stall = false
}

// long makes a run one of many operations on many instances, with few faults.
func (k *knobs) long(r *rng) {
	if r.p(1, 2) {
		k.quiet()
	}
	k.err, k.panic, k.unexp, k.breach = k.err/4, k.panic/8, k.unexp/8, k.breach/8
	k.exit, k.obsPanic, k.run, k.reset = 0, 0, 0, k.reset/10
	k.end, k.destroy = k.end/(1+r.n(8)), k.destroy/(1+r.n(8))
	k.clients = min(max(k.minClients, 1+r.n(2)), k.clients)
	k.ops = 30 + r.n(90)
	k.budget = 300 + r.n(700)
	k.obs = min(k.obs, 2)
	switch r.n(4) {
	case 0:
		k.insts, k.busy = []string{"a"}, k.busy+r.n(4)
	case 1, 2:
		k.insts = nil
		for i := 4 + r.n(60); i > 0; i-- {
			k.insts = append(k.insts, fmt.Sprint("i", i))
		}
	}
}

// profile biases the features towards those that matter to a property.
func profile(prop string, r *rng, k *knobs) {
	if r.p(1, 8) {
		k.quiet()
	}
	switch prop {
	case "C01":
		k.minClients, k.clients = 2, 2+r.n(4)
		k.reset = max(k.reset, 10)
	case "C02":
		k.handlers = max(k.handlers, 3)
	case "C03":
		k.err = 20 + r.n(50)
		k.handlers = max(k.handlers, 3)
		if r.p(2, 3) {
			k.panic, k.unexp, k.exit, k.breach, k.obsPanic = 0, 0, 0, 0, 0
		}
	case "C04":
		k.minClients, k.clients = 2, 2+r.n(3)
		k.ctx = 40 + r.n(60)
		k.sleep = max(k.sleep, 30)
		k.cancelStep = sometimes(r, 20)
		k.run = sometimes(r, 20)
	case "C05":
		if r.p(1, 4) {
			k.obsPanic = 20
		}
		k.panic = 10 + r.n(30)
		k.unexp = sometimes(r, 20)
		k.exit = sometimes(r, 20)
		k.compact = 70
	case "C06":
		k.agg, k.destroy = 8, 20+r.n(50)
		k.handlers = max(k.handlers, 2)
		k.ops += 4
	case "C07":
		k.proc, k.end = 8, 10+r.n(60)
		k.handlers = max(k.handlers, 3)
		k.ops += 4
	case "C08":
		k.proc, k.sched, k.tick = 8, 40+r.n(60), 30+r.n(40)
		k.handlers = max(k.handlers, 3)
		k.ops += 5
		k.now = max(k.now, 60)
		k.tmo, k.busy, k.mono = 1, r.n(2), r.p(3, 4)
		k.end = min(k.end, 20)
	case "C09":
		k.proj, k.version = 8, r.n(20)
		k.handlers = max(k.handlers, 3)
	case "C10":
		k.proj, k.tick, k.meet = 8, 30+r.n(50), 30
		k.handlers = max(k.handlers, 2)
		k.ops += 3
		k.compact = 75
		k.now = max(k.now, 60)
	case "C11":
		k.minObs = 1
		k.log = max(k.log, 30)
		k.obs = 1 + r.n(3)
		k.compact = 75
	case "C12":
		k.minObs = 1
		k.reset = max(k.reset, 10)
		k.clients = 1 + r.n(4)
	case "C13":
		k.en, k.off = 40+r.n(60), 20+r.n(40)
		k.minObs = r.n(2)
		k.handlers = max(k.handlers, 3)
	case "C14":
		k.reset = 20 + r.n(30)
		k.ops += 4
	case "C15":
		k.run = 30 + r.n(60)
		k.clients = 1 + r.n(3)
		k.wait = 50
	case "C24":
		k.breach, k.bad = 20+r.n(40), 20+r.n(30)
	}
	if r.p(1, 60) {
		k.long(r)
	}
	if k.minClients > k.clients {
		k.clients = k.minClients
	}
	if k.minObs > k.obs {
		k.obs = k.minObs
	}
}

func (r *rng) pc(n int) bool { return r.n(100) < n }

func pick[T any](r *rng, l []T) T { return l[r.n(len(l))] }

var (
	instances = []string{"a", "a", "a", "a", "b", "b", "ab", "A", "a ", " "}
	delays    = []int{-1000, 0, 1, 500, 1000, 1000, 2000, 60_000, 3_600_000, 5_400_000}
	// the delays of timeouts include some of thousands of years
	timeouts = append(append([]int{farFuture, farPast}, delays...), delays...)
	nows     = []int{0, 0, 500, 1000, 1000, 1500, 2000, 3000, 60_000, 61_000, 1_800_000, 3_599_999, 3_600_000, 3_601_000, 5_400_000, 7_200_000, 90_000_000}
	sleeps   = []int{0, 1, 10, 100, 1000, 5000}
)

const numProgs = 5

func genEngine(r *rng, k *knobs) *EngineScen {
	sc := &EngineScen{}
	sc.App = genApp(r, k)
	sc.Compact = r.pc(k.compact)
	sc.Hooks = 1 + r.n(3)
	nc := max(k.minClients, 1+r.n(k.clients))
	for i := 0; i < nc; i++ {
		var ops []OpSpec
		for j := 1 + r.n(k.ops); j > 0; j-- {
			ops = append(ops, genOp(r, k, sc))
		}
		sc.Clients = append(sc.Clients, ops)
	}
	sc.normalise()
	return sc
}

func genApp(r *rng, k *knobs) AppSpec {
	var a AppSpec
	a.Twins = r.pc(12)
	a.Budget = k.budget
	if r.pc(20) {
		a.Unit = pick(r, []int64{1, 1, 999, 1e3, 1e9, 1_000_001})
	}
	weights := []int{k.agg, k.proc, k.intg, k.proj}
	kinds := []string{hAgg, hProc, hIntg, hProj}
	total := 0
	for _, w := range weights {
		total += w
	}
	cmdOf := map[int]bool{}
	evtOf := map[int]bool{}
	subset := func(min, n int, ok func(int) bool) []int {
		var all []int
		for t := 0; t < n; t++ {
			if ok == nil || ok(t) {
				all = append(all, t)
			}
		}
		var out []int
		want := min + r.n(3)
		for len(all) > 0 && len(out) < want {
			i := r.n(len(all))
			out = append(out, all[i])
			all = append(all[:i], all[i+1:]...)
		}
		return out
	}
	for i := 0; i < k.handlers; i++ {
		x := r.n(total)
		kind := kinds[3]
		for j, w := range weights {
			if x < w {
				kind = kinds[j]
				break
			}
			x -= w
		}
		h := &HSpec{Kind: kind, Name: fmt.Sprintf("<%s-%d>", kind, i), Progs: map[int]Prg{}}
		if r.p(1, 12) {
			h.Name = fmt.Sprintf("<%s-%d>", strings.ToUpper(fmt.Sprint(kind)), i)
			if i%2 == 1 {
				// A name that means something else as a format or pattern.
				h.Name = fmt.Sprintf("<%s-%d>%%d(%%v)[a-z]*", kind, i)
			}
		} else if n := len(a.Handlers); n > 0 && r.p(1, 12) {
			// A name that contains that of another handler.
			h.Name = a.Handlers[n-1].Name + "x"
		}
		freeCmd := func(t int) bool { return !cmdOf[t] }
		freeEvt := func(t int) bool { return !evtOf[t] }
		switch kind {
		case hAgg, hIntg:
			h.In = subset(1, k.types, freeCmd)
			min := 1
			if kind == hIntg {
				min = 0
			}
			h.Out = subset(min, k.types, freeEvt)
			if len(h.In) == 0 || len(h.Out) < min {
				continue
			}
			for _, t := range h.In {
				cmdOf[t] = true
			}
			for _, t := range h.Out {
				evtOf[t] = true
			}
		case hProc:
			h.In = subset(1, k.types, nil)
			h.Out = subset(1, k.types, nil)
			h.Tmo = subset(k.tmo, 3, nil)
			h.Plain = r.p(1, 10)
		case hProj:
			h.In = subset(1, k.types, nil)
		}
		h.Off = r.pc(k.off)
		a.Handlers = append(a.Handlers, h)
	}
	if len(a.Handlers) == 0 {
		a.Handlers = append(a.Handlers, &HSpec{Kind: hProj, Name: "<projection-0>", In: []int{0}, Progs: map[int]Prg{}})
	}
	for _, h := range a.Handlers {
		for n := 0; n < numProgs; n++ {
			h.Progs[n] = genProg(r, k, h, &a)
		}
		if h.Kind == hProj {
			for j := 1 + r.n(3); j > 0; j-- {
				h.Cmp = append(h.Cmp, genCompact(r, k))
			}
		}
		h.Faults = genFaults(r, k, h)
	}
	return a
}

func genFaults(r *rng, k *knobs, h *HSpec) []Fault {
	var fs []Fault
	f := func(m method, kind string) { fs = append(fs, Fault{m, 1 + r.n(6), kind}) }
	switch h.Kind {
	case hAgg:
		if r.pc(k.panic) {
			f(mApply, "panic")
		}
		if r.pc(k.unexp) {
			f(mApply, "unexp")
		}
		if r.pc(k.exit) {
			f(mApply, "exit")
		}
		if r.pc(k.panic / 2) {
			f(mNew, "panic")
		}
		if r.pc(k.breach) {
			f(mNew, "nil")
		}
	case hProc:
		if r.pc(k.panic / 2) {
			f(mNew, "panic")
		}
		if r.pc(k.breach) {
			f(mNew, "nil")
		}
	case hProj:
		for _, m := range []method{mVersion, mClose} {
			if r.pc(k.err) {
				f(m, "err")
			}
			if r.pc(k.panic) {
				f(m, "panic")
			}
			if r.pc(k.exit) {
				f(m, "exit")
			}
		}
		if r.pc(k.version * 3) {
			f(mVersion, "version")
		}
	}
	return fs
}

// genProg draws what a handler does with one kind of message.
func genProg(r *rng, k *knobs, h *HSpec, a *AppSpec) Prg {
	var p Prg
	if h.Kind == hAgg || h.Kind == hProc {
		switch {
		case r.pc(k.panic / 3):
			p.Route = "panic"
		case r.pc(k.unexp / 2):
			p.Route = "unexp"
		case r.pc(k.exit / 3):
			p.Route = "exit"
		case r.pc(k.breach / 3):
			p.Route = "empty"
		case h.Kind == hProc && r.pc(k.err/2):
			p.Route = "err"
		case h.Kind == hProc && r.pc(12):
			p.Route = pick(r, []string{"ignore", "ignoreid"})
		}
	}
	if h.Kind == hProj {
		p.NotOK = r.pc(15)
		p.Meet = r.pc(k.meet)
	}
	add := func(s Step) { p.Steps = append(p.Steps, s) }
	extras := func() {
		if r.pc(k.log) {
			add(Step{Op: "log"})
			if r.p(1, 4) {
				add(Step{Op: "log"}) // again
			}
		}
		if r.pc(k.sleep) {
			add(Step{Op: "sleep", D: pick(r, sleeps)})
		}
		if r.pc(30) {
			add(Step{Op: "yield", D: r.n(4)})
		}
		if r.pc(k.cancelStep) {
			add(Step{Op: "cancel"})
		}
	}
	for i := r.n(4) + k.busy; i > 0; i-- {
		extras()
		n, in := r.n(numProgs), pick(r, k.insts)
		catch := r.pc(k.catch)
		switch h.Kind {
		case hAgg, hIntg:
			switch {
			case h.Kind == hAgg && r.pc(k.destroy):
				add(Step{Op: "destroy"})
			case r.pc(k.breach / 2):
				if t, ok := notIn(r, h.Out); ok && r.p(1, 2) {
					add(Step{Op: "norec", T: t, N: n, I: in, Catch: catch})
				} else if len(h.Out) > 0 {
					add(Step{Op: "badrec", T: pick(r, h.Out), N: n, I: in, Catch: catch})
				}
			case len(h.Out) > 0:
				add(Step{Op: "rec", T: pick(r, h.Out), N: n, I: in})
			}
		case hProc:
			switch {
			case r.pc(40):
				add(Step{Op: "mut"})
			case r.pc(k.end):
				add(Step{Op: "end"})
			case r.pc(k.breach / 2):
				if r.p(1, 2) {
					if t, ok := notIn(r, h.Out); ok && r.p(1, 2) {
						add(Step{Op: "noexec", T: t, N: n, I: in, Catch: catch})
					} else {
						add(Step{Op: "badexec", T: pick(r, h.Out), N: n, I: in, Catch: catch})
					}
				} else if t, ok := notIn(r, h.Tmo); ok && (r.p(1, 2) || len(h.Tmo) == 0) {
					add(Step{Op: "nosched", T: t, N: n, D: pick(r, timeouts), Catch: catch})
				} else if len(h.Tmo) > 0 {
					add(Step{Op: "badsched", T: pick(r, h.Tmo), N: n, D: pick(r, timeouts), Catch: catch})
				}
			case len(h.Tmo) > 0 && r.pc(k.sched):
				add(Step{Op: "sched", T: pick(r, h.Tmo), N: n, D: pick(r, timeouts)})
			default:
				add(Step{Op: "exec", T: pick(r, h.Out), N: n, I: in})
			}
		}
	}
	extras()
	if h.Kind != hAgg && r.pc(k.err/2) {
		add(Step{Op: "err"})
	} else if r.pc(k.panic / 2) {
		add(Step{Op: "panic"})
	} else if r.pc(k.unexp / 2) {
		add(Step{Op: "unexp"})
	} else if r.pc(k.exit / 2) {
		add(Step{Op: "exit"})
	}
	return p
}

func notIn(r *rng, l []int) (int, bool) {
	var c []int
	for t := 0; t < numTypes; t++ {
		if !has(l, t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		return 0, false
	}
	return pick(r, c), true
}

func genCompact(r *rng, k *knobs) []Step {
	var s []Step
	if r.pc(k.meet) {
		s = append(s, Step{Op: "meet"})
	}
	if r.pc(k.log) {
		s = append(s, Step{Op: "log"})
	}
	if r.pc(k.sleep) {
		s = append(s, Step{Op: "sleep", D: pick(r, sleeps)})
	}
	if r.pc(50) {
		s = append(s, Step{Op: "yield", D: r.n(5)})
	}
	if r.pc(k.log) {
		s = append(s, Step{Op: "log"})
	}
	if r.pc(k.cancelStep) {
		s = append(s, Step{Op: "cancel"})
	}
	if r.pc(k.err / 2) {
		s = append(s, Step{Op: "err"})
	} else if r.pc(k.panic / 2) {
		s = append(s, Step{Op: "panic"})
	} else if r.pc(k.exit / 2) {
		s = append(s, Step{Op: "exit"})
	}
	return s
}

func genEn(r *rng, k *knobs, a *AppSpec) []EnOpt {
	var es []EnOpt
	if !r.pc(k.en) {
		return nil
	}
	for i := 1 + r.n(3); i > 0; i-- {
		if r.p(1, 2) {
			es = append(es, EnOpt{Kind: pick(r, []string{hAgg, hProc, hIntg, hProj}), On: r.p(1, 3)})
		} else {
			es = append(es, EnOpt{H: r.n(len(a.Handlers)), On: r.p(1, 2)})
		}
	}
	return es
}

func genOp(r *rng, k *knobs, sc *EngineScen) OpSpec {
	o := OpSpec{Kind: "dispatch", Obs: max(k.minObs, r.n(k.obs+1))}
	x := r.n(100)
	switch {
	case x < k.tick:
		o.Kind = "tick"
	case x < k.tick+k.reset:
		o.Kind = "reset"
	case x < k.tick+k.reset+k.run:
		o.Kind = "run"
	}
	if r.pc(k.wait) {
		o.Wait = pick(r, []int{1, 10, 100, 250, 1000, 7000})
	}
	if o.Kind == "reset" {
		o.Obs = 0
		return o
	}
	if o.Kind == "dispatch" {
		o.N, o.I = r.n(numProgs), pick(r, k.insts)
		o.K, o.T = genTarget(r, &sc.App, true)
		if r.pc(k.bad) {
			o.Bad = pick(r, []string{"invalid", "unrouted", "badopt"})
			if o.Bad == "unrouted" {
				var ok bool
				if o.K, o.T, ok = genUnrouted(r, &sc.App); !ok {
					o.Bad = "invalid"
					o.K, o.T = genTarget(r, &sc.App, true)
				}
			}
		}
	}
	o.En = genEn(r, k, &sc.App)
	if o.Kind != "run" && r.pc(k.now) {
		n := pick(r, nows)
		if k.mono {
			k.clock += pick(r, []int{0, 0, 1, 500, 1000, 1000, 60_000, 1_800_000, 3_600_000})
			n = k.clock
		}
		o.Now = &n
	}
	if r.pc(k.obsPanic) && o.Obs > 0 {
		o.ObsPanic = 1 + r.n(25)
	}
	if r.pc(k.ctx) || o.Kind == "run" {
		o.Ctx = pick(r, []string{"pre", "deadline", "deadline", "cancel", "cancel", "cancel"})
		if o.Kind == "run" && o.Ctx == "pre" && r.p(3, 4) {
			o.Ctx = "cancel"
		}
		o.Ms = pick(r, []int{0, 0, 1, 5, 50, 100, 500, 1000, 3000})
		o.Yields = r.n(20)
	}
	if o.Kind == "run" {
		o.Interval = pick(r, []int{0, 0, 100, 333, 1000, 60_000})
		if o.Interval != 0 && r.p(1, 3) {
			o.Nanos = r.n(1_000_000)
		}
		o.Ms = r.n(max(o.Interval, 250) * 5)
		if r.p(1, 6) {
			o.Ms = max(o.Interval, 250) * r.n(4)
		}
		if r.p(2, 3) {
			o.Factor = pick(r, []float64{0.5, 1, 2, 10, 3600, 0.001, 0, -1, -60})
			o.Scaled = o.Factor == 0
			if r.p(1, 2) {
				n := pick(r, nows)
				switch r.n(12) {
				case 0:
					n = -946684800000 // 1970
				case 1:
					n = -1893456000000 // 1940
				}
				o.Epoch = &n
			}
		}
	}
	return o
}

func genTarget(r *rng, a *AppSpec, events bool) (int, int) {
	type kt struct{ k, t int }
	var l []kt
	for _, h := range a.Handlers {
		for _, t := range h.In {
			if h.Kind == hAgg || h.Kind == hIntg {
				l = append(l, kt{kCmd, t})
			} else {
				l = append(l, kt{kEvt, t})
			}
		}
	}
	x := pick(r, l)
	return x.k, x.t
}

func genUnrouted(r *rng, a *AppSpec) (int, int, bool) {
	type kt struct{ k, t int }
	var l []kt
	for k := kCmd; k <= kEvt; k++ {
	next:
		for t := 0; t < numTypes; t++ {
			for _, h := range a.Handlers {
				if consumes(h, k, t) {
					continue next
				}
			}
			l = append(l, kt{k, t})
		}
	}
	if len(l) == 0 {
		return 0, 0, false
	}
	x := pick(r, l)
	return x.k, x.t, true
}

// normalise makes a scenario, possibly one reduced by the minimiser, obey the
// rules that the oracle relies on.
func (sc *EngineScen) normalise() {
	if sc.Hooks < 1 {
		sc.Hooks = 1
	}
	for i := range sc.Clients {
		for j := range sc.Clients[i] {
			o := &sc.Clients[i][j]
			if o.Kind == "run" {
				o.Now = nil
				if o.Ctx == "" {
					o.Ctx, o.Ms = "deadline", 500
				}
				if o.Interval < 0 || (o.Interval > 0 && o.Interval < 20) {
					o.Interval = 20
				}
				o.Nanos = max(o.Nanos, 0)
			}
			if o.Kind == "tick" || o.Kind == "run" {
				o.Obs = max(o.Obs, 1)
			}
			if o.Obs == 0 && o.Now == nil && o.Kind == "dispatch" {
				n := 0
				o.Now = &n
			}
			if o.Obs > 4 {
				o.Obs = 4
			}
		}
	}
}

// valid returns an error if a scenario makes no sense.
func (sc *EngineScen) valid() error {
	a := &sc.App
	if len(a.Handlers) == 0 || len(sc.Clients) == 0 {
		return fmt.Errorf("empty")
	}
	names := map[string]bool{}
	cmd, evt := map[int]bool{}, map[int]bool{}
	for _, h := range a.Handlers {
		if names[h.Name] || len(h.Name) < 3 || len(h.In) == 0 {
			return fmt.Errorf("handler")
		}
		names[h.Name] = true
		switch h.Kind {
		case hAgg, hIntg:
			if h.Kind == hAgg && len(h.Out) == 0 {
				return fmt.Errorf("no events")
			}
			for _, t := range h.In {
				if cmd[t] {
					return fmt.Errorf("command")
				}
				cmd[t] = true
			}
			for _, t := range h.Out {
				if evt[t] {
					return fmt.Errorf("event")
				}
				evt[t] = true
			}
		case hProc:
			if len(h.Out) == 0 {
				return fmt.Errorf("no commands")
			}
		case hProj:
		default:
			return fmt.Errorf("kind")
		}
		for _, l := range [][]int{h.In, h.Out, h.Tmo} {
			seen := map[int]bool{}
			for _, t := range l {
				if seen[t] || t < 0 || t >= numTypes {
					return fmt.Errorf("type")
				}
				seen[t] = true
			}
		}
	}
	for _, c := range sc.Clients {
		for _, o := range c {
			for _, e := range o.En {
				if e.Kind == "" && (e.H < 0 || e.H >= len(a.Handlers)) {
					return fmt.Errorf("option")
				}
			}
			switch o.Kind {
			case "dispatch":
				routed := false
				for _, h := range a.Handlers {
					routed = routed || consumes(h, o.K, o.T)
				}
				if o.K == kTmo || routed == (o.Bad == "unrouted") {
					return fmt.Errorf("dispatch")
				}
			case "tick", "reset", "run":
				if o.Bad != "" && o.Bad != "badopt" {
					return fmt.Errorf("bad")
				}
			default:
				return fmt.Errorf("operation")
			}
		}
	}
	return nil
}
