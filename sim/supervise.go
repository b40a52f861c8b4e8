package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type workerDone struct {
	w      int
	code   int
	cur    int // run that was being performed, or -1
	stderr string
	viol   *violFile
	killed bool
}

// supervise performs the search, and returns the exit code of the check.
func supervise() int {
	begin := time.Now()
	self, err := os.Executable()
	must(err)
	dir, err := os.MkdirTemp("", "verifsim-")
	must(err)
	defer os.RemoveAll(dir)
	until := begin.Add(*fCap)

	total := newStats()
	known := map[string]int64{}
	hashes := map[uint64]bool{}
	sites := make([]uint8, 1<<14)
	var viols []*violFile
	var trouble []string

	var mu sync.Mutex
	var wg sync.WaitGroup
	search := func(bin, name string, w, from, runs int) {
		for n := 0; from < runs; n++ {
			part := fmt.Sprintf("%s%d-%d", name, w, n)
			d := runWorker(bin, dir, part, from, runs, until)
			mu.Lock()
			collectPart(dir, part, total, known, hashes, sites)
			mu.Unlock()
			if d.stderr != "" && *fHashes {
				fmt.Fprint(os.Stderr, d.stderr)
			}
			switch {
			case d.code == 0:
				return
			case d.code == exitViolation && d.viol != nil:
				if *fProp == "C25" && soloFails(bin, dir, part, d.viol.Scenario) {
					from = d.cur + *fWorkers
					if n < maxSolo {
						continue
					}
					return
				}
				mu.Lock()
				if *fProp == "C25" {
					// Other workers need not go beyond this run.
					must(os.WriteFile(filepath.Join(dir, "stop"), binary.LittleEndian.AppendUint64(nil, uint64(d.viol.Index)), 0o644))
				}
				d.viol.Viols = withRaceText(d.viol.Viols, d.stderr)
				viols = append(viols, d.viol)
				mu.Unlock()
				return
			case d.code == exitStuck:
				from = d.cur + *fWorkers
			case !d.killed && d.cur >= 0 && isCrash(d.stderr):
				if *fProp == "C25" && soloFails(bin, dir, part, scenario(*fProp, *fSeed, d.cur)) {
					from = d.cur + *fWorkers
					if n < maxSolo {
						continue
					}
					return
				}
				mu.Lock()
				viols = append(viols, &violFile{
					Property: *fProp, Index: d.cur, Seed: *fSeed, Crash: true, Race: bin != self,
					Viols:    []viol{{*fProp, "the program was ended: " + crashText(d.stderr), 0}},
					Scenario: scenario(*fProp, *fSeed, d.cur),
				})
				mu.Unlock()
				return
			default:
				mu.Lock()
				trouble = append(trouble, fmt.Sprintf("worker %s ended with code %d at run %d: %s", part, d.code, d.cur, tail(d.stderr)))
				mu.Unlock()
				return
			}
		}
	}
	// Runs under the race detector come first, and are a prefix of the others.
	for w := 0; w < *fWorkers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if *fRace != "" {
				search(*fRace, "r", w, w, *fRRuns)
			}
			search(self, "w", w, w, *fRuns)
		}()
	}
	wg.Wait()
	searched := time.Since(begin)

	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	var final *violFile
	for _, v := range viols {
		bin := self
		if v.Race {
			bin = *fRace
		}
		m, err := confirm(bin, dir, v)
		if err == nil {
			final = m
			break
		}
		trouble = append(trouble, fmt.Sprintf("run %d does not repeat: %v (%v)", v.Index, err, v.Viols))
	}

	ev := evidence(total, known, hashes, sites, searched, time.Since(begin), final)
	if *fOut != "" {
		must(os.MkdirAll(*fOut, 0o755))
		must(writeJSON(filepath.Join(*fOut, *fProp+".json"), ev))
	}
	for _, l := range knownLines(known) {
		fmt.Println(l)
	}
	fmt.Printf("%s: %d runs (%d relevant, %d distinct interleavings) in %.1fs, %d switches, %.1f h simulated\n",
		*fProp, total.Runs, total.Nontriv, len(hashes), searched.Seconds(), total.Switches, float64(total.SimMs)/3.6e6)
	if final != nil {
		path := filepath.Join(*fOut, fmt.Sprintf("%s-replay.json", *fProp))
		must(writeJSON(path, final))
		for _, v := range final.Viols {
			fmt.Printf("event %d: %s\n", v.At, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, path)
		return 1
	}
	if len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "verifsim:", t)
		}
		return 2
	}
	if total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "verifsim: no runs were completed")
		return 2
	}
	return 0
}

// maxSolo limits how often a worker goes on after finding that a part
// misbehaves even when it runs alone.
const maxSolo = 25

// soloFails returns true if a part of the scenario misbehaves, or ends the
// program, even when it runs alone, which is then not for want of independence.
func soloFails(bin, dir, part string, sc *Scenario) bool {
	path := filepath.Join(dir, part+".solo.json")
	must(writeJSON(path, sc))
	c := exec.Command(bin, "-solo", path)
	c.Env = goEnv()
	must(c.Start())
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	defer t.Stop()
	return c.Wait() != nil
}

func tail(s string) string {
	if len(s) > 2000 {
		return s[:1000] + " ... " + s[len(s)-1000:]
	}
	return s
}

func isCrash(s string) bool {
	return strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: ")
}

func crashText(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			return l
		}
	}
	return ""
}

func withRaceText(vs []viol, stderr string) []viol {
	i := strings.Index(stderr, "WARNING: DATA RACE")
	if i < 0 {
		return vs
	}
	t := stderr[i:]
	if j := strings.Index(t, "=================="); j > 0 {
		t = t[:j]
	}
	for k := range vs {
		if vs[k].Props == "RACE" {
			vs[k].Msg += ": " + t
		}
	}
	return vs
}

func goEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single")
}

// runWorker runs a worker until it ends. One that makes no progress for a long
// time is killed.
func runWorker(self, dir, part string, from, runs int, until time.Time) *workerDone {
	c := exec.Command(self,
		"-worker", dir, "-part", part, "-prop", *fProp,
		"-seed", fmt.Sprint(*fSeed), "-runs", fmt.Sprint(runs),
		"-from", fmt.Sprint(from), "-step", fmt.Sprint(*fWorkers),
		"-until", fmt.Sprint(until.Unix()), fmt.Sprintf("-hashes=%v", *fHashes))
	var stderr bytes.Buffer
	c.Stderr = &stderr
	c.Stdout = os.Stdout
	c.Env = goEnv()
	must(c.Start())
	ended := make(chan struct{})
	d := &workerDone{cur: -1}
	go func() {
		last, since := -1, time.Now()
		t := time.NewTicker(time.Second)
		defer t.Stop()
		for {
			select {
			case <-ended:
				return
			case <-t.C:
			}
			if n := readCur(dir, part); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > 90*time.Second {
				d.killed = true
				c.Process.Kill()
				return
			}
		}
	}()
	err := c.Wait()
	close(ended)
	d.code = c.ProcessState.ExitCode()
	if err != nil && d.code == 0 {
		d.code = -1
	}
	d.cur = readCur(dir, part)
	d.stderr = stderr.String()
	if b, err := os.ReadFile(filepath.Join(dir, part+".viol")); err == nil {
		var v violFile
		if json.Unmarshal(b, &v) == nil {
			d.viol = &v
		}
	}
	return d
}

func readCur(dir, part string) int {
	b, err := os.ReadFile(filepath.Join(dir, part+".cur"))
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b)) - 1
}

func collectPart(dir, part string, total *stats, known map[string]int64, hashes map[uint64]bool, sites []uint8) {
	if b, err := os.ReadFile(filepath.Join(dir, part+".json")); err == nil {
		x := struct {
			Stats *stats
			Known map[string]int64
		}{Stats: newStats()}
		if json.Unmarshal(b, &x) == nil {
			total.merge(x.Stats)
			for k, v := range x.Known {
				known[k] += v
			}
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, part+".hash")); err == nil {
		for ; len(b) >= 8; b = b[8:] {
			hashes[binary.LittleEndian.Uint64(b)] = true
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, part+".sites")); err == nil {
		for i := range b {
			if i < len(sites) {
				sites[i] |= b[i]
			}
		}
	}
}

// knownLines returns the lines to print for known findings that were met.
func knownLines(known map[string]int64) []string {
	b, err := os.ReadFile(*fKnown)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <what fails>
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+*fProp {
			continue
		}
		key := strings.TrimPrefix(f[2], "key=")
		if known[key] > 0 {
			out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%d occurrences)", *fProp, strings.Join(f[3:], " "), known[key]))
		}
	}
	return out
}
