package main

import (
	"fmt"
	"regexp"
)

// tknobs are the probabilities with which tests use features.
type tknobs struct {
	*knobs
	steps         int
	call, advance int // per action
	back          int // adjustments that reverse time
	unknown       int // actions and expectations about unused message types
	composite     int
	sat           int
	rec, raw      int
	enable        int // steps
	badEnable     int
	prepare       int
	sleepStep     int
	execStep      int
	gs, xs        int // goroutines, and steps of each
	esc           int
	xctx, set     int
	icpt          int
	fnPanic       int
	reuse         int
	cut           int
}

func genTKnobs(prop string, r *rng) *tknobs {
	k := &tknobs{knobs: genKnobs(r)}
	k.quiet()
	k.handlers = 2 + r.n(5)
	k.types = 2 + r.n(4)
	k.err = sometimes(r, r.n(25))
	k.panic = sometimes(r, r.n(8))
	k.off = sometimes(r, r.n(25))
	k.meet = sometimes(r, r.n(20))
	k.steps = 2 + r.n(6)
	k.call, k.advance = r.n(40), r.n(40)
	k.back = sometimes(r, 20)
	k.unknown = sometimes(r, r.n(15))
	k.composite, k.sat = r.n(60), r.n(40)
	k.rec, k.raw = r.n(100), r.n(60)
	k.enable, k.badEnable = r.n(40), sometimes(r, r.n(50))
	k.prepare, k.sleepStep, k.execStep = r.n(40), r.n(15), r.n(10)
	k.gs, k.xs, k.esc = 1+r.n(3), 1+r.n(3), sometimes(r, r.n(50))
	k.xctx, k.icpt, k.fnPanic = sometimes(r, r.n(30)), sometimes(r, r.n(60)), sometimes(r, r.n(20))
	k.set = sometimes(r, r.n(k.enable+1))
	k.reuse = sometimes(r, 30)
	k.cut = sometimes(r, 20)
	k.stall = r.p(1, 3)
	switch prop {
	case "C16":
		k.advance = 30 + r.n(50)
		k.sleepStep = 20
		k.stall = true
	case "C17":
		k.composite = sometimes(r, r.n(30))
		k.sat, k.off, k.panic = 0, 0, 0
		k.err = k.err / 3
		k.fnPanic, k.xctx = 0, 0
		k.enable, k.badEnable = k.enable/2, 0
	case "C18":
		k.composite, k.sat = 70+r.n(30), 20+r.n(40)
		k.off, k.panic, k.err = 0, 0, k.err/3
		k.fnPanic = 0
		k.enable = k.enable / 2
	case "C19":
		k.call = 60 + r.n(40)
		k.gs, k.xs = 2+r.n(3), 1+r.n(4)
		k.esc = r.n(60)
		k.icpt = r.n(80)
		k.execStep = r.n(30)
	case "C20":
		k.err = 15 + r.n(40)
		k.unknown = 10 + r.n(30)
	case "C04":
		k.call, k.xctx = 60+r.n(40), 30+r.n(50)
		k.gs, k.xs = 1+r.n(4), 1+r.n(3)
	case "C21":
		k.enable = 30 + r.n(40)
		k.set = r.n(40)
		k.badEnable = r.n(50)
		k.off = r.n(40)
		k.unknown = 0
	}
	if r.p(1, 60) {
		// A long test with few faults.
		k.steps = 15 + r.n(30)
		k.budget = 300 + r.n(500)
		k.err, k.panic, k.fnPanic, k.unknown, k.badEnable = k.err/8, 0, 0, k.unknown/8, k.badEnable/8
		k.back, k.cut, k.xctx = k.back/8, 0, k.xctx/8
	}
	return k
}

func genTest(prop string, r *rng, k *tknobs) *TestScen {
	sc := &TestScen{App: genApp(r, k.knobs), Stop: pick(r, []string{"panic", "panic", "exit", "return"})}
	if r.p(1, 2) {
		n := pick(r, nows)
		sc.Start = &n
	}
	if r.pc(k.icpt) {
		sc.Icpt = genIcpt(r)
	}
	if r.p(1, 8) {
		sc.Cmp = "script"
	}
	if r.pc(k.cut) {
		sc.Cut = &Cut{}
		if r.p(1, 2) {
			sc.Cut.Step = 1 + r.n(4)
		} else {
			sc.Cut.Yields = r.n(60)
			sc.Cut.D = pick(r, []int{0, 0, 0, 1, 100, 2000})
		}
	}
	if prop != "C21" && r.p(1, 2) || r.p(1, 4) {
		sc.Steps = append(sc.Steps, &StepSpec{Kind: "enable", Like: true, Names: []string{"."}})
	}
	for i := 1 + r.n(k.steps); i > 0; i-- {
		sc.Steps = append(sc.Steps, genStep(r, k, sc))
	}
	return sc
}

func genIcpt(r *rng) string {
	return pick(r, []string{"pass", "pass", "pass", "drop", "fail", "twice"})
}

func genStep(r *rng, k *tknobs, sc *TestScen) *StepSpec {
	x := r.n(100)
	switch {
	case x < k.enable:
		return genEnable(r, k, sc)
	case x < k.enable+k.sleepStep:
		return &StepSpec{Kind: "sleep", D: pick(r, sleeps)}
	case x < k.enable+k.sleepStep+k.execStep:
		for i := 0; i < 5; i++ {
			if x := genX(r, k, sc); x.Op == "exec" {
				return &StepSpec{Kind: "exec", X: &x}
			}
		}
		return &StepSpec{Kind: "sleep", D: pick(r, sleeps)}
	case r.pc(k.prepare):
		s := &StepSpec{Kind: "prepare"}
		for i := 1 + r.n(3); i > 0; i-- {
			s.Acts = append(s.Acts, genAct(r, k, sc))
		}
		return s
	case r.p(1, 30):
		return &StepSpec{Kind: "annotate"}
	}
	s := &StepSpec{Kind: "expect", Raw: r.pc(k.raw), Acts: []int{genAct(r, k, sc)}}
	if len(sc.Exps) > 0 && r.pc(k.reuse) {
		s.Exp = r.n(len(sc.Exps))
		return s
	}
	s.Exp = len(sc.Exps)
	sc.Exps = append(sc.Exps, genExp(r, k, sc, 3))
	return s
}

func genEnable(r *rng, k *tknobs, sc *TestScen) *StepSpec {
	s := &StepSpec{Kind: "enable", Like: r.p(1, 2)}
	if r.p(1, 3) {
		s.Kind = "disable"
	}
	for i := 1 + r.n(3); i > 0; i-- {
		h := sc.App.Handlers[r.n(len(sc.App.Handlers))]
		bad := r.pc(k.badEnable)
		switch {
		case !s.Like && bad && r.p(1, 2):
			s.Names = append(s.Names, "<unknown>")
		case !s.Like && (!h.Off || bad):
			s.Names = append(s.Names, h.Name)
		case s.Like && bad && r.p(1, 2):
			s.Names = append(s.Names, "unknown")
		case s.Like:
			p := pick(r, []string{
				".", "^<", "aggregate", "projection", "process|integration", "^<proj", "[0-2]>$", "[13]",
				fmt.Sprintf("-%d>", r.n(5)), "^" + regexp.QuoteMeta(h.Name) + "$", "(?i)PROCESS", "gration",
				"AGG", "PRO", "x$", "^" + regexp.QuoteMeta(h.Name), regexp.QuoteMeta(h.Name) + "$",
			})
			if _, ok := sc.App.likeNames([]string{p}); ok || bad {
				s.Names = append(s.Names, p)
			}
		}
	}
	return s
}

// genAct adds an action, or reuses one.
func genAct(r *rng, k *tknobs, sc *TestScen) int {
	if len(sc.Acts) > 0 && r.pc(k.reuse) {
		return r.n(len(sc.Acts))
	}
	sc.Acts = append(sc.Acts, genActSpec(r, k, sc))
	return len(sc.Acts) - 1
}

func genActSpec(r *rng, k *tknobs, sc *TestScen) *ActSpec {
	x := r.n(100)
	switch {
	case x < k.call:
		a := &ActSpec{Kind: "call"}
		if r.pc(k.icpt) {
			a.Icpt = genIcpt(r)
		}
		for i := 1 + r.n(k.gs); i > 0; i-- {
			g := &GSpec{Esc: len(a.Gs) > 0 && r.pc(k.esc)}
			for j := r.n(k.xs + 1); j > 0; j-- {
				g.Steps = append(g.Steps, genX(r, k, sc))
				if len(a.Gs) == 0 && r.pc(k.set) {
					g.Steps = append(g.Steps, XStep{Op: "set", Set: genEnable(r, k, sc)})
				}
			}
			if len(a.Gs) == 0 && r.pc(k.fnPanic) {
				g.Steps = append(g.Steps, XStep{Op: "panic"})
			}
			a.Gs = append(a.Gs, g)
		}
		return a
	case x < k.call+k.advance:
		a := &ActSpec{Kind: pick(r, []string{"by", "to", "adj"})}
		a.D = pick(r, nows)
		if a.Kind == "adj" && r.pc(k.back) {
			a.D = -pick(r, []int{1, 1000, 60_000})
		}
		if a.Kind == "to" && !r.pc(k.back) {
			a.D = 100_000_000 + 3_600_000*len(sc.Acts)
		}
		return a
	}
	a := &ActSpec{N: r.n(numProgs), I: pick(r, k.insts)}
	kind := kCmd
	if r.pc(k.unknown) {
		if kk, t, ok := genUnused(r, &sc.App); ok {
			kind, a.T = kk, t
			a.Kind = [...]string{"cmd", "evt"}[kind]
			return a
		}
	}
	kind, a.T = genTarget(r, &sc.App, true)
	a.Kind = [...]string{"cmd", "evt"}[kind]
	return a
}

// genUnused draws a message type that the application does not use.
func genUnused(r *rng, a *AppSpec) (int, int, bool) {
	type kt struct{ k, t int }
	var l []kt
	for k := kCmd; k <= kEvt; k++ {
		for t := 0; t < numTypes; t++ {
			if c, p, _ := a.roles(k, t); !c && !p {
				l = append(l, kt{k, t})
			}
		}
	}
	if len(l) == 0 {
		return 0, 0, false
	}
	x := pick(r, l)
	return x.k, x.t, true
}

func genX(r *rng, k *tknobs, sc *TestScen) XStep {
	switch r.n(10) {
	case 0:
		return XStep{Op: "sleep", D: pick(r, sleeps)}
	case 1, 2:
		return XStep{Op: "yield", D: r.n(6)}
	}
	x := XStep{Op: "exec", N: r.n(numProgs), I: pick(r, k.insts)}
	var l []int
	for _, h := range sc.App.Handlers {
		if h.Kind == hAgg || h.Kind == hIntg {
			l = append(l, h.In...)
		}
	}
	if len(l) == 0 {
		return XStep{Op: "yield", D: 2}
	}
	x.T = pick(r, l)
	if r.pc(k.xctx) {
		x.Ctx = pick(r, []string{"pre", "cancel", "cancel", "soon"})
		x.D = r.n(12)
		if x.Ctx == "soon" {
			x.D = pick(r, []int{0, 1, 10, 100, 2000})
		}
	} else if r.p(1, 8) {
		x.Ctx = "far"
	}
	return x
}

func genExp(r *rng, k *tknobs, sc *TestScen, depth int) *ExpSpec {
	if depth > 0 && r.pc(k.composite) {
		x := &ExpSpec{Kind: pick(r, []string{"all", "any", "none", "not", "rep", "all", "any"}), Rec: r.pc(k.rec)}
		n := 1 + r.n(3)
		if x.Kind == "not" {
			n = 1
		}
		for i := 0; i < n; i++ {
			x.Kids = append(x.Kids, genExp(r, k, sc, depth-1))
		}
		if x.Kind == "rep" {
			x.N = 1 + r.n(3)
		}
		return x
	}
	if r.pc(k.sat) {
		x := &ExpSpec{Kind: "sat", Rec: r.pc(k.rec)}
		for i := r.n(3); i > 0; i-- {
			x.Sat = append(x.Sat, pick(r, []string{"log", "fail", "error", "failnow", "fatal", "skip", "skipnow"}))
		}
		return x
	}
	x := &ExpSpec{Rec: r.pc(k.rec), Alt: r.p(1, 2)}
	x.Kind = pick(r, []string{"cmd", "evt", "evt", "cmdtype", "evttype", "evttype", "cmdmatch", "evtmatch", "onlycmd", "onlyevt"})
	kind := x.kindOf()
	// Prefer messages that the application produces.
	type made struct {
		t, n int
		i    string
	}
	var l []made
	for _, h := range sc.App.Handlers {
		for n := 0; n < numProgs; n++ {
			for _, s := range h.Progs[n].Steps {
				if kind == kEvt && s.Op == "rec" || kind == kCmd && s.Op == "exec" {
					l = append(l, made{s.T, s.N, s.I})
				}
			}
		}
	}
	for _, a := range sc.Acts {
		for _, g := range a.Gs {
			for _, s := range g.Steps {
				if kind == kCmd && s.Op == "exec" {
					l = append(l, made{s.T, s.N, s.I})
				}
			}
		}
	}
	x.T, x.N, x.I = r.n(k.types), r.n(numProgs), pick(r, k.insts)
	if len(l) > 0 && r.pc(85) {
		m := pick(r, l)
		x.T, x.N, x.I = m.t, m.n, m.i
	} else if !r.pc(k.unknown) {
		var ts []int
		for t := 0; t < numTypes; t++ {
			if _, p, _ := sc.App.roles(kind, t); p {
				ts = append(ts, t)
			}
		}
		if len(ts) > 0 {
			x.T = pick(r, ts)
		}
	} else if kk, t, ok := genUnused(r, &sc.App); ok && kk == kind {
		x.T = t
	}
	switch x.Kind {
	case "cmdmatch", "evtmatch", "onlycmd", "onlyevt":
		if r.p(1, 2) {
			x.T = -1
		}
		for n := 0; n < numProgs; n++ {
			x.Tab += pick(r, []string{"m", "m", "i", "f"})
		}
	}
	return x
}

func (sc *TestScen) valid() error {
	e := &EngineScen{App: sc.App, Clients: [][]OpSpec{{}}}
	if err := e.valid(); err != nil {
		return err
	}
	if sc.Stop != "panic" && sc.Stop != "exit" && sc.Stop != "return" {
		return fmt.Errorf("stop")
	}
	if usesExit(&sc.App) {
		return fmt.Errorf("exit")
	}
	for _, h := range sc.App.Handlers {
		for _, p := range h.Progs {
			for _, s := range p.Steps {
				switch s.Op {
				case "rec", "exec":
					if s.I == "" || !has(h.Out, s.T) {
						return fmt.Errorf("message")
					}
				case "sched":
					if !has(h.Tmo, s.T) {
						return fmt.Errorf("timeout")
					}
				}
			}
		}
	}
	validX := func(x *XStep) error {
		switch x.Op {
		case "exec":
			if x.I == "" {
				return fmt.Errorf("instance")
			}
			if c, _, _ := sc.App.roles(kCmd, x.T); !c {
				return fmt.Errorf("command")
			}
		case "set":
			if x.Set == nil || x.Set.Kind != "enable" && x.Set.Kind != "disable" {
				return fmt.Errorf("kind")
			}
			return x.Set.validNames()
		case "yield", "sleep", "panic":
		default:
			return fmt.Errorf("step")
		}
		return nil
	}
	for _, a := range sc.Acts {
		if a == nil {
			return fmt.Errorf("nil")
		}
		switch a.Kind {
		case "cmd", "evt":
			k := kCmd
			if a.Kind == "evt" {
				k = kEvt
			}
			if a.I == "" {
				return fmt.Errorf("instance")
			}
			if c, p, _ := sc.App.roles(k, a.T); p && !c || a.T < 0 || a.T >= numTypes {
				return fmt.Errorf("message")
			}
		case "by":
			if a.D < 0 {
				return fmt.Errorf("duration")
			}
		case "to", "adj":
		case "call":
			for i, g := range a.Gs {
				if g == nil {
					return fmt.Errorf("nil")
				}
				for j := range g.Steps {
					if err := validX(&g.Steps[j]); err != nil {
						return err
					}
					if (g.Steps[j].Op == "panic" || g.Steps[j].Op == "set") && i > 0 {
						return fmt.Errorf("panic")
					}
				}
			}
		default:
			return fmt.Errorf("action")
		}
	}
	for _, x := range sc.Exps {
		if err := x.valid(); err != nil {
			return err
		}
	}
	for _, s := range sc.Steps {
		if s == nil {
			return fmt.Errorf("nil")
		}
		for _, a := range s.Acts {
			if a < 0 || a >= len(sc.Acts) {
				return fmt.Errorf("index")
			}
		}
		switch s.Kind {
		case "expect":
			if len(s.Acts) != 1 || s.Exp < 0 || s.Exp >= len(sc.Exps) {
				return fmt.Errorf("index")
			}
		case "exec":
			if s.X == nil || s.X.Op != "exec" {
				return fmt.Errorf("exec")
			}
			if err := validX(s.X); err != nil {
				return err
			}
		case "enable", "disable":
			if err := s.validNames(); err != nil {
				return err
			}
		case "prepare", "sleep", "annotate":
		default:
			return fmt.Errorf("kind")
		}
	}
	return nil
}

func (s *StepSpec) validNames() error {
	for _, n := range s.Names {
		if _, err := regexp.Compile(n); err != nil || n == "" {
			return fmt.Errorf("pattern")
		}
	}
	return nil
}

func (x *ExpSpec) valid() error {
	if x == nil {
		return fmt.Errorf("nil")
	}
	switch x.Kind {
	case "cmd", "evt", "cmdtype", "evttype":
		if x.T < 0 {
			return fmt.Errorf("type")
		}
		fallthrough
	case "cmdmatch", "evtmatch", "onlycmd", "onlyevt", "sat":
		if x.T >= numTypes || x.T < -1 || len(x.Kids) != 0 {
			return fmt.Errorf("type")
		}
		return nil
	case "all", "any", "none":
	case "not":
		if len(x.Kids) != 1 {
			return fmt.Errorf("children")
		}
	case "rep":
		if x.N < 1 || x.N > 9 {
			return fmt.Errorf("count")
		}
	default:
		return fmt.Errorf("kind")
	}
	if len(x.Kids) == 0 {
		return fmt.Errorf("children")
	}
	for _, k := range x.Kids {
		if err := k.valid(); err != nil {
			return err
		}
	}
	return nil
}
