package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/dogmatiq/testkit/fact"
)

// BufferScen is a fact buffer shared by several goroutines.
type BufferScen struct {
	Gs [][]BufStep
}

// BufStep is a step of a goroutine.
type BufStep struct {
	Op string // notify, read, spoil (read, then modify the result), yield, sleep
	D  int    `json:",omitempty"`
}

type bufferWorld struct {
	id int32
	sc *BufferScen
	b  fact.Buffer
}

func newBufferWorld(id int32, sc *BufferScen) world { return &bufferWorld{id: id, sc: sc} }

func (w *bufferWorld) setup(wg *sync.WaitGroup) {
	for i := range w.sc.Gs {
		wg.Add(1)
		spawn(func() {
			defer wg.Done()
			w.script(i, w.sc.Gs[i])
		})
	}
}

func mkFact(id int64) fact.Fact {
	return fact.MessageLoggedByIntegration{LogFormat: fmt.Sprint(id)}
}

func factIDs(fs []fact.Fact) []int64 {
	l := []int64{}
	for _, f := range fs {
		id := int64(-1)
		if x, ok := f.(fact.MessageLoggedByIntegration); ok {
			fmt.Sscan(x.LogFormat, &id)
		}
		l = append(l, id)
	}
	return l
}

func (w *bufferWorld) script(g int, steps []BufStep) {
	type snap struct {
		fs  []fact.Fact
		ids []int64
		id  int64
	}
	var snaps []snap
	verify := func() {
		for _, s := range snaps {
			got := factIDs(s.fs)
			if fmt.Sprint(got) != fmt.Sprint(s.ids) {
				add(&Ev{Kind: evNote, W: w.id, H: -1, S: "changed", N: s.id, V: fmt.Sprintf("%v became %v", s.ids, got)})
			}
		}
	}
	for _, s := range steps {
		yield()
		id := int64(newCall())
		e := Ev{Kind: evAct, W: w.id, H: -1, Op: int32(g), S: s.Op, N: id, M: ref{K: -1}, T: zeroNS}
		switch s.Op {
		case "notify":
			f := mkFact(id)
			add(&e)
			w.b.Notify(f)
			e.Kind = evActEnd
			add(&e)
		case "read", "spoil":
			add(&e)
			fs := w.b.Facts()
			e.Kind = evActEnd
			ids := factIDs(fs)
			e.V = ids
			add(&e)
			if s.Op == "spoil" {
				for i := range fs {
					fs[i] = mkFact(-2)
				}
				_ = append(fs, mkFact(-3))
				yield()
			} else {
				snaps = append(snaps, snap{fs, ids, id})
			}
		case "yield":
			for k := 0; k <= s.D; k++ {
				runtime.SimPark(0)
			}
		case "sleep":
			sleep(time.Duration(s.D) * time.Millisecond)
		}
		verify()
	}
	yield()
	verify()
}

func (w *bufferWorld) check(evs []Ev, st *stats, r *runResult) {
	fail := func(at int, f string, args ...any) {
		r.viols = append(r.viols, viol{"C23", fmt.Sprintf(f, args...), at})
	}
	type op struct {
		start, end int
		g          int32
		ids        []int64
	}
	notes := map[int64]*op{}
	var order []int64
	var reads []*op
	open := map[int64]*op{}
	for i := range evs {
		e := &evs[i]
		if e.W != w.id {
			continue
		}
		switch e.Kind {
		case evAct:
			o := &op{start: i, end: len(evs), g: e.Op}
			open[e.N] = o
			if e.S == "notify" {
				notes[e.N] = o
				order = append(order, e.N)
			}
		case evActEnd:
			o := open[e.N]
			o.end = i
			if e.S != "notify" {
				o.ids, _ = e.V.([]int64)
				reads = append(reads, o)
			}
		case evNote:
			if e.S == "changed" {
				fail(i, "a snapshot changed: %v", e.V)
			}
		}
	}
	for _, q := range reads {
		at := map[int64]int{}
		last := map[int32]int64{}
		for i, id := range q.ids {
			n := notes[id]
			if n == nil {
				fail(q.end, "the snapshot contains something that was never notified (%d)", id)
				continue
			}
			if _, ok := at[id]; ok {
				fail(q.end, "fact %d is in the snapshot twice", id)
			}
			at[id] = i
			if n.start > q.end {
				fail(q.end, "fact %d is in a snapshot taken before its notification began", id)
			}
			if last[n.g] > id {
				fail(q.end, "facts %d and %d of the same goroutine are out of order", last[n.g], id)
			}
			last[n.g] = id
		}
		for _, id := range order {
			if n := notes[id]; n.end < q.start {
				if _, ok := at[id]; !ok {
					fail(q.end, "fact %d, whose notification had finished, is not in the snapshot", id)
				}
			}
		}
	}
	for _, a := range reads {
		for _, b := range reads {
			if len(a.ids) > len(b.ids) {
				continue
			}
			for i := range a.ids {
				if a.ids[i] != b.ids[i] {
					fail(max(a.end, b.end), "snapshots %v and %v do not extend one another", a.ids, b.ids)
					break
				}
			}
		}
	}
	if st != nil {
		st.Count["snapshots"] += int64(len(reads))
	}
}

func genBuffer(r *rng) *BufferScen {
	sc := &BufferScen{}
	spoil := sometimes(r, r.n(30))
	write := 20 + r.n(60)
	steps := 8
	if r.p(1, 60) {
		steps, write = 20+r.n(150), 90+r.n(10)
	}
	for i := 1 + r.n(5); i > 0; i-- {
		var l []BufStep
		for j := 1 + r.n(steps); j > 0; j-- {
			switch x := r.n(100); {
			case r.pc(15):
				l = append(l, BufStep{Op: "yield", D: r.n(4)})
			case r.pc(3):
				l = append(l, BufStep{Op: "sleep", D: pick(r, sleeps)})
			case x < write:
				l = append(l, BufStep{Op: "notify"})
			case r.pc(spoil):
				l = append(l, BufStep{Op: "spoil"})
			default:
				l = append(l, BufStep{Op: "read"})
			}
		}
		sc.Gs = append(sc.Gs, l)
	}
	return sc
}
