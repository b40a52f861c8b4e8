package main

import (
	"runtime"
	"time"
)

// rng is a splitmix64 generator.
type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// n returns a number in [0, n).
func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.next() >> 32) * uint64(n) >> 32)
}

// p is true with a probability of a in b.
func (r *rng) p(a, b int) bool { return r.n(b) < a }

func mix(a, b uint64) uint64 {
	r := rng(a*0x9e3779b97f4a7c15 ^ b)
	r.next()
	return r.next()
}

// Stall makes simulated time pass before a scheduling decision is acted on, as
// though every goroutine had been descheduled.
type Stall struct {
	At int // index of the decision
	Ms int
}

// Schedule determines everything about a run that the scenario does not.
type Schedule struct {
	Seed   uint64   // seed of the Go runtime's own random choices
	Points []uint64 // statement counts at which the running task is preempted
	Picks  []int    // which of the ready tasks runs, for each decision
	Random uint64   `json:",omitempty"` // if non-zero, seeds picks beyond those listed
	Stalls []Stall  `json:",omitempty"`
}

// genSchedule draws a schedule. Preemption density is drawn first so that runs
// range from almost sequential to switching at every few statements.
func genSchedule(r *rng) Schedule {
	s := Schedule{Seed: r.next(), Random: r.next() | 1}
	gaps := []int{0, 2, 5, 12, 30, 80, 200, 600}
	g := gaps[r.n(len(gaps))]
	if g > 0 {
		pos := uint64(0)
		k := 1 + r.n(400)
		for i := 0; i < k; i++ {
			pos += uint64(1 + r.n(2*g))
			s.Points = append(s.Points, pos)
		}
	}
	if r.p(1, 2) {
		at := 0
		for i := 1 + r.n(3); i > 0; i-- {
			at += 1 + r.n(15)
			s.Stalls = append(s.Stalls, Stall{at, 1 + r.n(3000)})
		}
	}
	return s
}

// outcome of a simulated run.
type simResult struct {
	picks     []int
	multi     int    // decisions with a choice of more than one task
	hash      uint64 // of the sequence of switches
	steps     uint64
	tasks     int
	simTime   time.Duration
	deadlock  bool
	livelock  bool
	preempted int
	stalls    int
}

const (
	stepLimit = 3_000_000 // number of steps without an event after which a run is considered never to end
	idleLimit = 200_000 * time.Hour
)

var ready [1 << 12]int

// spawn starts f as a task that does not run until the scheduler picks it.
func spawn(f func()) {
	go func() {
		runtime.SimRegister()
		runtime.SimPark(0)
		defer runtime.SimWake()
		f()
	}()
}

// yield is a point at which the simulator may switch tasks.
func yield() { runtime.SimYield(0) }

// sleep makes simulated time pass for the calling task.
func sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	runtime.SimYield(0)
}

// simulate runs the tasks started by setup until they have all ended, then
// calls finish. When tasks are left that can never proceed, stuck is called
// and must not return.
func simulate(s Schedule, setup func(), finish func(), stuck func(*simResult)) *simResult {
	res := &simResult{}
	runtime.SimRun(func() {
		start := time.Now()
		runtime.SimStart(s.Seed, stepLimit, s.Points)
		setup()
		r := rng(s.Random)
		hash := uint64(14695981039346656037)
		stall := 0
		spins, seen, pause := 0, 0, time.Duration(0)
		for {
			runtime.SimWait()
			if _, pre, over := runtime.SimState(); over {
				res.livelock = true
				break
			} else if pre {
				res.preempted++
			}
			n := runtime.SimReady(ready[:])
			if n == 0 {
				if runtime.SimAlive() == 0 {
					break
				}
				expired := false
				t := time.AfterFunc(idleLimit, func() { expired = true; runtime.SimWake() })
				runtime.SimIdle()
				t.Stop()
				if expired {
					res.deadlock = true
					break
				}
				continue
			}
			for stall < len(s.Stalls) && s.Stalls[stall].At < len(res.picks) {
				stall++
			}
			if stall < len(s.Stalls) && s.Stalls[stall].At == len(res.picks) {
				noteStall(int64(s.Stalls[stall].Ms))
				time.Sleep(time.Duration(s.Stalls[stall].Ms) * time.Millisecond)
				res.stalls++
				stall++
				runtime.SimWait()
				n = runtime.SimReady(ready[:])
			}
			if !runtime.SimSoft() || histLen() != seen {
				spins, seen, pause = 0, histLen(), 0
			} else if spins++; spins > 4*n {
				// The tasks may be spinning until time has passed.
				pause = min(max(2*pause, time.Millisecond), time.Second)
				noteStall(int64(pause / time.Millisecond))
				spins, seen = 0, histLen()
				time.Sleep(pause)
				runtime.SimWait()
				n = runtime.SimReady(ready[:])
			}
			k := 0
			if len(res.picks) < len(s.Picks) {
				k = s.Picks[len(res.picks)] % n
			} else if s.Random != 0 && n > 1 {
				k = r.n(n)
			}
			res.picks = append(res.picks, k)
			if n > 1 {
				res.multi++
			}
			id := ready[k]
			hash = (hash ^ uint64(id)) * 1099511628211
			hash = (hash ^ uint64(runtime.SimSite(id))) * 1099511628211
			runtime.SimResume(id)
		}
		res.hash = hash
		res.steps, _, _ = runtime.SimState()
		res.simTime = time.Since(start)
		if res.deadlock || res.livelock {
			stuck(res)
		}
		finish()
		runtime.SimStop()
	})
	return res
}
