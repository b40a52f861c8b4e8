// Command verifsim searches for breaches of the properties in
// /verif/properties.jsonl by deterministic simulation.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

var (
	fProp    = flag.String("prop", "C01", "property to decide")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fRuns    = flag.Int("runs", 1000, "number of runs")
	fRace    = flag.String("race", "", "simulator built with the race detector")
	fRRuns   = flag.Int("raceruns", 0, "number of runs under the race detector")
	fWorkers = flag.Int("workers", 8, "number of worker processes")
	fTier    = flag.String("tier", "quick", "tier, for the evidence file")
	fOut     = flag.String("out", "", "directory for evidence and replay files")
	fCap     = flag.Duration("cap", 4*time.Minute, "limit on the duration of the search")
	fKnown   = flag.String("known", "", "file that lists known findings")
	fReplay  = flag.String("replay", "", "replay file to run")
	fTrace   = flag.Bool("trace", true, "print the history when replaying")
	fTry     = flag.String("try", "", "scenario file to run for the minimiser")
	fWorker  = flag.String("worker", "", "directory shared with the supervisor")
	fFrom    = flag.Int("from", 0, "first run of a worker")
	fStep    = flag.Int("step", 1, "distance between the runs of a worker")
	fPart    = flag.String("part", "", "name of a worker's output files")
	fUntil   = flag.Int64("until", 0, "unix time at which a worker stops")
	fSolo    = flag.String("solo", "", "replay file of which to run each part alone")
	fHashes  = flag.Bool("hashes", false, "print the hash of each run's history")
	fDump    = flag.Int("dump", -1, "print the history of one run")
	fMap     = flag.String("sites", "", "file that names yield sites, for coverage")
)

func main() {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	// Collection during a run would disturb the order in which the runtime
	// starts goroutines that become ready at the same moment.
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	theFirstID = firstID()
	switch {
	case *fTry != "":
		try(*fTry)
	case *fSolo != "":
		solo(*fSolo)
	case *fReplay != "":
		replay(*fReplay)
	case *fWorker != "":
		worker()
	case *fDump >= 0:
		dump(*fDump)
	default:
		debug.SetGCPercent(100)
		os.Exit(supervise())
	}
}

func propHash(p string) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(p) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return h
}

// scenario returns the scenario of the i-th run.
func scenario(prop string, seed uint64, i int) *Scenario {
	r := rng(mix(mix(seed, propHash(prop)), uint64(i)))
	r.next()
	return generate(prop, &r)
}

// relevant returns the breaches that concern a property.
func relevant(prop string, vs []viol) []viol {
	if prop == "C25" {
		return vs
	}
	var out []viol
	for _, v := range vs {
		for _, p := range strings.Fields(v.Props) {
			if p == prop || p == "RACE" && raceProps[prop] {
				out = append(out, v)
				break
			}
		}
	}
	return out
}

// raceProps are the properties of which a data race is a breach.
var raceProps = map[string]bool{"C01": true, "C11": true, "C19": true, "C22": true, "C23": true, "C25": true}

// violFile is a replay file: a scenario, and what is wrong with it.
type violFile struct {
	Property string
	Race     bool `json:",omitempty"` // found with, and needs, the race detector
	Crash    bool `json:",omitempty"` // ends the program
	Index    int
	Seed     uint64
	Viols    []viol
	Hist     uint64
	Scenario *Scenario
}

func (v viol) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]any{"Props": v.Props, "Msg": v.Msg, "At": v.At})
}

// replayable returns a copy of the scenario that repeats the run exactly.
func replayable(sc *Scenario, res *simResult) *Scenario {
	c := *sc
	c.Sched.Picks = append([]int(nil), res.picks...)
	for n := len(c.Sched.Picks); n > 0 && c.Sched.Picks[n-1] == 0; n-- {
		c.Sched.Picks = c.Sched.Picks[:n-1]
	}
	c.Sched.Random = 0
	return &c
}

const (
	exitViolation = 3
	exitStuck     = 4
)

// worker performs every step-th run, until one breaches the property.
func worker() {
	dir := *fWorker
	st := newStats()
	known := map[string]int64{}
	cur, err := os.OpenFile(filepath.Join(dir, *fPart+".cur"), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	stop, err := os.OpenFile(filepath.Join(dir, "stop"), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	var hashes []byte
	save := func() {
		must(os.WriteFile(filepath.Join(dir, *fPart+".hash"), hashes, 0o644))
		must(os.WriteFile(filepath.Join(dir, *fPart+".sites"), runtime.SimSites(), 0o644))
		must(writeJSON(filepath.Join(dir, *fPart+".json"), map[string]any{"Stats": st, "Known": known}))
	}
	var b [8]byte
	for i := *fFrom; i < *fRuns; i += *fStep {
		binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
		cur.WriteAt(b[:], 0)
		var s [8]byte
		if n, _ := stop.ReadAt(s[:], 0); n == 8 && int(binary.LittleEndian.Uint64(s[:])) < i {
			break
		}
		if *fUntil != 0 && time.Now().Unix() >= *fUntil {
			st.Truncated++
			break
		}
		if i/(*fStep)%16 == 0 {
			collect()
		}
		sc := scenario(*fProp, *fSeed, i)
		done := func(r *runResult, stuck bool) {
			for k, v := range r.known {
				known[k] += v
			}
			if r.nontriv {
				hashes = binary.LittleEndian.AppendUint64(hashes, mix(r.hash, propHash(sc.key())))
			}
			if *fHashes {
				if err := sc.valid(); err != nil {
					fmt.Printf("HASH %d invalid: %v\n", i, err)
				}
				fmt.Printf("HASH %d %x %x\n", i, r.hash, r.hist)
			}
			if vs := relevant(*fProp, r.viols); len(vs) > 0 {
				if *fProp != "C25" {
					binary.LittleEndian.PutUint64(s[:], uint64(i))
					stop.WriteAt(s[:], 0)
				}
				save()
				must(writeJSON(filepath.Join(dir, *fPart+".viol"), &violFile{
					Property: *fProp, Index: i, Seed: *fSeed, Viols: vs, Hist: r.hist,
					Race: raceBuild, Scenario: replayable(sc, r.sim),
				}))
				os.Exit(exitViolation)
			}
			if stuck {
				save()
				os.Exit(exitStuck)
			}
		}
		r := execute(sc, st, func(r *runResult) { done(r, true) })
		done(r, false)
	}
	binary.LittleEndian.PutUint64(b[:], 0)
	cur.WriteAt(b[:], 0)
	save()
	os.Exit(0)
}

// collect collects garbage if there is enough of it.
func collect() {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 256<<20 {
		runtime.GC()
	}
}

func onlyRace(vs []viol) bool {
	for _, v := range vs {
		if v.Props != "RACE" {
			return false
		}
	}
	return true
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifsim:", err)
		os.Exit(2)
	}
}

// tryResult is what a run of a candidate scenario tells the minimiser.
type tryResult struct {
	Viols []viol
	Hist  uint64
	Picks []int
}

func (v *viol) UnmarshalJSON(b []byte) error {
	type plain viol
	return json.Unmarshal(b, (*plain)(v))
}

func loadScenario(path string) (*Scenario, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var sc Scenario
	if err := json.Unmarshal(b, &sc); err != nil {
		return nil, err
	}
	return &sc, nil
}

// try runs a scenario and reports the breaches as JSON.
func try(path string) {
	sc, err := loadScenario(path)
	if err == nil {
		err = sc.valid()
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "verifsim: invalid scenario:", err)
		fmt.Println("{}")
		return
	}
	sc.normalise()
	out := func(r *runResult) {
		p := replayable(sc, r.sim)
		b, err := json.Marshal(tryResult{relevant(sc.Prop, r.viols), r.hist, p.Sched.Picks})
		must(err)
		fmt.Println(string(b))
	}
	r := execute(sc, nil, func(r *runResult) {
		out(r)
		os.Exit(0)
	})
	out(r)
}

// parts returns scenarios that consist of one part each.
func (sc *Scenario) parts() []*Scenario {
	var l []*Scenario
	for _, e := range sc.Engines {
		l = append(l, &Scenario{Prop: sc.Prop, Engines: []*EngineScen{e}, Sched: sc.Sched})
	}
	for _, e := range sc.Tests {
		l = append(l, &Scenario{Prop: sc.Prop, Tests: []*TestScen{e}, Sched: sc.Sched})
	}
	for _, e := range sc.Sats {
		l = append(l, &Scenario{Prop: sc.Prop, Sats: []*SatScen{e}, Sched: sc.Sched})
	}
	for _, e := range sc.Buffers {
		l = append(l, &Scenario{Prop: sc.Prop, Buffers: []*BufferScen{e}, Sched: sc.Sched})
	}
	return l
}

// soloTries is the number of schedules under which each part is run alone.
const soloTries = 40

// solo runs each part of a scenario alone, and exits with exitViolation if one
// of them misbehaves.
func solo(path string) {
	sc, err := loadScenario(path)
	must(err)
	sc.normalise()
	for i, p := range sc.parts() {
		r := rng(mix(sc.Sched.Seed, uint64(i)))
		for n := 0; n < soloTries; n++ {
			if n > 0 {
				p.Sched = genSchedule(&r)
			}
			x := execute(p, nil, func(*runResult) { os.Exit(exitViolation) })
			if len(x.viols) > 0 {
				os.Exit(exitViolation)
			}
			collect()
		}
	}
	os.Exit(0)
}

// replay runs a replay file, printing the history and the breaches.
func replay(path string) {
	b, err := os.ReadFile(path)
	must(err)
	var v violFile
	must(json.Unmarshal(b, &v))
	if v.Race && !raceBuild {
		fmt.Fprintln(os.Stderr, "verifsim: the replay file needs the race detector")
		os.Exit(2)
	}
	v.Scenario.normalise()
	end := func(r *runResult) {
		if *fTrace {
			printHistory(r)
		}
		vs := relevant(v.Property, r.viols)
		for _, x := range vs {
			fmt.Printf("event %d: [%s] %s\n", x.At, x.Props, x.Msg)
		}
		fmt.Printf("history hash %x (recorded %x)\n", r.hist, v.Hist)
		if len(vs) > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
			os.Exit(1)
		}
		os.Exit(0)
	}
	end(execute(v.Scenario, nil, end))
}

func printHistory(r *runResult) {
	evs := events()
	for i := range evs {
		fmt.Printf("%4d %s\n", i, &evs[i])
	}
}

func dump(i int) {
	sc := scenario(*fProp, *fSeed, i)
	b, _ := json.MarshalIndent(sc, "", " ")
	fmt.Println(string(b))
	end := func(r *runResult) {
		printHistory(r)
		for _, x := range r.viols {
			fmt.Printf("event %d: [%s] %s\n", x.At, x.Props, x.Msg)
		}
		fmt.Printf("hash %x %x\n", r.hash, r.hist)
		os.Exit(0)
	}
	end(execute(sc, nil, end))
}

// generate draws a scenario for a property.
func generate(prop string, r *rng) *Scenario {
	sc := &Scenario{Prop: prop}
	switch prop {
	case "C04":
		if !r.p(1, 10) {
			break
		}
		fallthrough
	case "C16", "C17", "C18", "C19", "C20", "C21":
		k := genTKnobs(prop, r)
		sc.Tests = append(sc.Tests, genTest(prop, r, k))
		sc.Sched = genSchedule(r)
		if !k.stall {
			sc.Sched.Stalls = nil
		}
		return sc
	case "C22":
		sc.Sats = append(sc.Sats, genSat(r))
		sc.Sched = genSchedule(r)
		return sc
	case "C23":
		sc.Buffers = append(sc.Buffers, genBuffer(r))
		sc.Sched = genSchedule(r)
		return sc
	case "C25":
		return genMany(r)
	}
	k := genKnobs(r)
	profile(prop, r, k)
	sc.Engines = append(sc.Engines, genEngine(r, k))
	sc.Sched = genSchedule(r)
	if !k.stall {
		sc.Sched.Stalls = nil
	}
	return sc
}

// genMany draws several engines and tests that run at the same time.
func genMany(r *rng) *Scenario {
	sc := &Scenario{Prop: "C25"}
	stall := false
	for i := 2 + r.n(2); i > 0; i-- {
		if r.p(1, 2) {
			p := pick(r, []string{"C01", "C02", "C06", "C07", "C08", "C10", "C12", "C13", "C14"})
			k := genKnobs(r)
			profile(p, r, k)
			k.minClients, k.clients, k.ops = 1, 1+r.n(2), min(k.ops, 5)
			if r.p(2, 3) {
				k.quiet()
			}
			k.exit = 0
			sc.Engines = append(sc.Engines, genEngine(r, k))
			stall = stall || k.stall
		} else {
			p := pick(r, []string{"C16", "C17", "C18", "C19", "C20", "C21"})
			k := genTKnobs(p, r)
			k.steps = min(k.steps, 4)
			sc.Tests = append(sc.Tests, genTest(p, r, k))
			stall = stall || k.stall
		}
	}
	if r.p(1, 8) {
		sc.Sats = append(sc.Sats, genSat(r))
	}
	sc.Sched = genSchedule(r)
	if !stall {
		sc.Sched.Stalls = nil
	}
	return sc
}

func (sc *Scenario) key() string {
	c := *sc
	c.Sched = Schedule{}
	b, _ := json.Marshal(&c)
	return string(b)
}

func (sc *Scenario) normalise() {
	for _, e := range sc.Engines {
		e.normalise()
	}
}

func (sc *Scenario) valid() error {
	n := 0
	for _, e := range sc.Engines {
		n++
		if e == nil {
			return fmt.Errorf("nil")
		}
		if err := e.valid(); err != nil {
			return err
		}
	}
	for _, t := range sc.Tests {
		n++
		if t == nil {
			return fmt.Errorf("nil")
		}
		if err := t.valid(); err != nil {
			return err
		}
	}
	for _, t := range sc.Sats {
		n++
		if t == nil {
			return fmt.Errorf("nil")
		}
		if err := t.valid(); err != nil {
			return err
		}
	}
	for _, b := range sc.Buffers {
		n++
		if b == nil {
			return fmt.Errorf("nil")
		}
	}
	if n == 0 || n == 1 && sc.Prop == "C25" {
		return fmt.Errorf("empty")
	}
	return nil
}
