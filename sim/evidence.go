package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func evidence(st *stats, known map[string]int64, hashes map[uint64]bool, sites []uint8, searched, wall time.Duration, v *violFile) any {
	faults := map[string]int64{}
	work := map[string]int64{}
	for k, n := range st.Count {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = n
		} else {
			work[k] = n
		}
	}
	var samples []any
	for i := 0; i < 2; i++ {
		sc := scenario(*fProp, *fSeed, i)
		b, _ := json.Marshal(sc)
		s := string(b)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		samples = append(samples, map[string]any{"run": i, "scenario": s})
	}
	cov := map[string]any{
		"evaluations":             st.Runs,
		"distinct_nontrivial":     len(hashes),
		"rule":                    "each run is a scenario (application, operations, faults) and a schedule drawn from the seed; it is non-trivial if it exercised what the property is about (" + ruleOf(*fProp) + "); two are distinct if the scenario, or the sequence of tasks and of the statements at which they were switched, differ",
		"samples":                 samples,
		"nontrivial_runs":         st.Nontriv,
		"runs_per_hour":           int64(float64(st.Runs) / searched.Hours()),
		"simulated_hours":         float64(st.SimMs) / 3.6e6,
		"statements_simulated":    st.Steps,
		"scheduling_choices":      st.Switches,
		"preemptions":             st.Preempts,
		"history_events":          st.Events,
		"faults_injected":         faults,
		"work_done":               work,
		"known_findings_met":      known,
		"histories_too_long":      st.HistFull,
		"runs_that_got_stuck":     st.Stuck,
		"stopped_early_by_time":   st.Truncated > 0,
		"runs_with_race_detector": min(int64(*fRRuns), st.Runs),
		"worker_processes":        *fWorkers,
		"statements_reached":      siteCoverage(sites),
		"components_run_for_real": "all of dogmatiq/testkit and its dependencies (engine, controllers, scopes, facts, tests, expectations), the Go scheduler, channels, mutexes and timers",
		"components_simulated":    "choice of the running goroutine, time, and the Go runtime's random choices; stubs: the Dogma application, its messages, and the testing.TB",
	}
	return map[string]any{
		"property": *fProp, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": btoi(v != nil),
		"assumptions": []string{
			"code between two yield points (one precedes every statement of the repository) runs without being interrupted",
			"dependencies outside the repository are switched only where they block",
			"Go memory-model effects other than those the race detector reports are not simulated",
		},
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func ruleOf(p string) string {
	if s, ok := map[string]string{
		"C01": "operations overlapped in time and handlers ran", "C02": "two or more messages were handled",
		"C03": "a handler returned an error", "C04": "a context ended", "C05": "a panic or goroutine exit was raised",
		"C06": "aggregates handled two or more commands", "C07": "processes handled two or more messages",
		"C08": "a timeout was delivered", "C09": "a projection handled an event", "C10": "a compaction ran",
		"C11": "more than four facts were reported", "C12": "two or more messages were handled",
		"C14": "a reset took place and handlers ran", "C16": "time was advanced",
		"C17": "an expectation was evaluated", "C18": "an expectation was evaluated", "C19": "a command was executed",
		"C20": "an expectation was evaluated or the test failed", "C21": "handlers were enabled or disabled, and handlers ran",
		"C22": "two or more calls were made", "C23": "two or more calls were made", "C25": "operations overlapped in time",
	}[p]; ok {
		return s
	}
	return "operations were performed"
}

// siteCoverage summarises, by file, the statements that runs reached.
func siteCoverage(sites []uint8) any {
	b, err := os.ReadFile(*fMap)
	if err != nil {
		return nil
	}
	hit, all := map[string]int{}, map[string]int{}
	for n, file := range strings.Fields(string(b)) {
		if i := strings.LastIndexByte(file, ':'); i > 0 {
			file = file[:i]
		}
		all[file]++
		if n < len(sites) && sites[n] != 0 {
			hit[file]++
		}
	}
	var out []string
	for f := range all {
		if hit[f] > 0 {
			out = append(out, fmt.Sprintf("%s: %d of %d", f, hit[f], all[f]))
		}
	}
	sort.Strings(out)
	return out
}
