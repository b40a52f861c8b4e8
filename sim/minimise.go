package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// outcome of trying a scenario in a process of its own.
func tryScenario(self, dir string, v *violFile, b []byte, n int) (*tryResult, string) {
	path := filepath.Join(dir, fmt.Sprintf("try-%d.json", n))
	if os.WriteFile(path, b, 0o644) != nil {
		return nil, ""
	}
	c := exec.Command(self, "-try", path)
	var out, stderr bytes.Buffer
	c.Stdout, c.Stderr = &out, &stderr
	c.Env = goEnv()
	if c.Start() != nil {
		return nil, ""
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if v.Crash {
		if err != nil && isCrash(stderr.String()) && crashKind(stderr.String()) == crashKind(v.Viols[0].Msg) {
			return &tryResult{Viols: []viol{{v.Property, "the program was ended: " + crashText(stderr.String()), 0}}}, ""
		}
		return nil, ""
	}
	if err != nil {
		return nil, ""
	}
	var r tryResult
	if json.Unmarshal(out.Bytes(), &r) != nil || len(r.Viols) == 0 {
		return nil, ""
	}
	if onlyRace(v.Viols) != onlyRace(r.Viols) {
		return nil, ""
	}
	if v.Property == "C25" {
		var sc Scenario
		if json.Unmarshal(b, &sc) != nil || soloFails(self, dir, fmt.Sprintf("try-%d", n), &sc) {
			return nil, ""
		}
	}
	return &r, stderr.String()
}

func crashKind(s string) string {
	t := crashText(s)
	if t == "" {
		t = s
	}
	if bytes.Contains([]byte(t), []byte("injected")) {
		return "injected"
	}
	if bytes.Contains([]byte(t), []byte("fatal error")) {
		return "fatal"
	}
	return "panic"
}

// confirm repeats a failing run in a fresh process, and then minimises it. It
// returns an error if the failure does not repeat.
func confirm(self, dir string, v *violFile) (*violFile, error) {
	raw := func(sc *Scenario) []byte {
		b, err := json.Marshal(sc)
		must(err)
		return b
	}
	cur := raw(v.Scenario)
	r, text := tryScenario(self, dir, v, cur, 0)
	if r == nil {
		return nil, fmt.Errorf("a fresh process does not fail")
	}
	deadline := time.Now().Add(60 * time.Second)
	cur, r, text = minimise(self, dir, v, cur, r, text, deadline)

	out := *v
	var sc Scenario
	must(json.Unmarshal(cur, &sc))
	sc.normalise()
	out.Scenario = &sc
	again, _ := tryScenario(self, dir, v, cur, 0)
	if again == nil || again.Hist != r.Hist {
		return nil, fmt.Errorf("the minimised run does not repeat")
	}
	out.Viols = withRaceText(r.Viols, text)
	out.Hist = r.Hist
	return &out, nil
}

// minimise removes parts of the scenario and schedule for as long as the run
// still fails.
func minimise(self, dir string, v *violFile, cur []byte, r *tryResult, text string, deadline time.Time) ([]byte, *tryResult, string) {
	const parallel = 8
	for round := 0; round < 12 && time.Now().Before(deadline); round++ {
		var tree any
		if json.Unmarshal(cur, &tree) != nil {
			break
		}
		cands := reductions(tree)
		improved := false
		for i := 0; i < len(cands) && time.Now().Before(deadline); {
			n := min(parallel, len(cands)-i)
			type res struct {
				r *tryResult
				t string
				b []byte
			}
			rs := make([]res, n)
			done := make(chan int)
			for j := 0; j < n; j++ {
				go func() {
					var t any
					json.Unmarshal(cur, &t)
					t = cands[i+j].apply(t)
					if b, err := json.Marshal(t); err == nil && !bytes.Equal(b, cur) {
						x, text := tryScenario(self, dir, v, b, 1+j)
						rs[j] = res{x, text, b}
					}
					done <- j
				}()
			}
			for j := 0; j < n; j++ {
				<-done
			}
			step := n
			for j := 0; j < n; j++ {
				if rs[j].r != nil {
					cur, r, text = rs[j].b, rs[j].r, rs[j].t
					improved = true
					step = j + 1
					break
				}
			}
			i += step
		}
		if !improved {
			break
		}
	}
	return cur, r, text
}

// reduction is a way of making a JSON document smaller: deleting elements
// [lo, hi) of the array at path, or deleting the key at path.
type reduction struct {
	path   []any
	lo, hi int
	zero   bool
}

// apply returns the document with the reduction applied. Paths are looked up
// again, so that a reduction made obsolete by another has no effect.
func (x reduction) apply(t any) any {
	if len(x.path) == 0 {
		if a, ok := t.([]any); ok && x.lo < len(a) {
			hi := min(x.hi, len(a))
			return append(append([]any{}, a[:x.lo]...), a[hi:]...)
		}
		return t
	}
	next := x
	next.path = x.path[1:]
	switch p := x.path[0].(type) {
	case string:
		m, ok := t.(map[string]any)
		if !ok {
			return t
		}
		c, ok := m[p]
		if !ok {
			return t
		}
		if len(next.path) == 0 && x.zero {
			delete(m, p)
			return m
		}
		m[p] = next.apply(c)
	case int:
		a, ok := t.([]any)
		if !ok || p >= len(a) {
			return t
		}
		if len(next.path) == 0 && x.zero {
			if n, ok := a[p].(float64); ok && n != 0 {
				a[p] = 0
			}
			return a
		}
		a[p] = next.apply(a[p])
	}
	return t
}

// reductions lists reductions, larger ones first. Those of arrays go from the
// end, so that they do not disturb each other.
func reductions(t any) []reduction {
	var big, small []reduction
	var walk func(t any, path []any)
	cp := func(p []any, x any) []any { return append(append([]any{}, p...), x) }
	walk = func(t any, path []any) {
		switch x := t.(type) {
		case map[string]any:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sortStrings(keys)
			for _, k := range keys {
				switch k {
				case "Prop", "Kind", "Name", "Seed":
					continue
				}
				small = append(small, reduction{path: cp(path, k), zero: true})
				walk(x[k], cp(path, k))
			}
		case []any:
			n := len(x)
			for size := n; size >= 1; size /= 2 {
				for hi := n; hi > 0; hi -= size {
					lo := max(hi-size, 0)
					r := reduction{path: path, lo: lo, hi: hi}
					if size > 1 {
						big = append(big, r)
					} else {
						small = append(small, r)
					}
				}
			}
			nums := true
			for i := n - 1; i >= 0; i-- {
				if _, ok := x[i].(float64); !ok {
					nums = false
					walk(x[i], cp(path, i))
				}
			}
			_ = nums
		}
	}
	walk(t, nil)
	return append(big, small...)
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
