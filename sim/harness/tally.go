//go:build go1.22

package verifsim

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// tally adds up what the runs of a check covered.
type tally struct {
	runs, raceRuns, nontrivial int
	distinct                   map[string]bool // distinct executions, by what was resumed where and which events happened
	distinctNT                 map[string]bool
	scheds                     map[string]bool
	rechecked, mismatch        int
	search                     time.Duration
	timedOut, overrun          int
	policies                   map[string]int
	sum                        stats
	samples                    []any
	faultsPerRun               map[int]int
}

func newTally() *tally {
	return &tally{distinct: map[string]bool{}, distinctNT: map[string]bool{}, scheds: map[string]bool{}, policies: map[string]int{},
		faultsPerRun: map[int]int{}, sum: stats{Ops: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}}}
}

func (t *tally) add(o *runOut) {
	t.runs++
	if o.race {
		t.raceRuns++
	}
	if o.timedOut {
		t.timedOut++
	}
	if o.plan != nil {
		if len(o.plan.Steps) == 0 {
			t.policies[o.plan.Sched.Policy]++
		}
		for _, s := range o.plan.Steps {
			t.policies[s.Sched.Policy]++
		}
	}
	if o.res == nil {
		return
	}
	if strings.Contains(o.res.Note, "budget") {
		t.overrun++
	}
	nf := 0
	key, sched := "", ""
	for _, s := range o.res.Stats {
		t.sum.Yields += s.Yields
		t.sum.Picks += s.Picks
		t.sum.Preempts += s.Preempts
		t.sum.SimNanos += s.SimNanos
		t.sum.Requests += s.Requests
		t.sum.Builds += s.Builds
		for k, v := range s.Ops {
			t.sum.Ops[k] += v
		}
		for k, v := range s.Faults {
			t.sum.Faults[k] += v
			nf += v
		}
		for k, v := range s.Probes {
			t.sum.Probes[k] += v
		}
		key += s.TraceHash
		sched += s.SchedHash
	}
	t.faultsPerRun[min(nf, 5)]++
	t.distinct[key] = true
	t.scheds[sched] = true
	if nonTrivial(o) {
		t.nontrivial++
		t.distinctNT[key] = true
		if len(t.samples) < 4 && o.plan != nil {
			lines := planLines(o.plan)
			if len(lines) > 14 {
				lines = append(lines[:14], fmt.Sprintf("... and %d more", len(lines)-14))
			}
			for i, l := range lines {
				if len(l) > 400 {
					lines[i] = l[:400] + "..."
				}
			}
			t.samples = append(t.samples, map[string]any{"seed": o.seed, "race_detector": o.race, "kind": o.plan.Kind,
				"plan": lines, "yields": o.res.Stats[0].Yields, "scheduling_decisions": o.res.Stats[0].Picks,
				"simulated_s": float64(o.res.Stats[0].SimNanos) / 1e9, "trace_hash": key, "summary": o.res.Summary})
		}
	}
}

var realParts = []string{
	"all of booklit (every package of the module), its parser, loader, stages, templates, server and command, unmodified but for a yield before every statement, inserted at build time",
	"net/http server and html/template, text/template, encoding/json, os, sync, context, logrus, the Go scheduler's goroutines and the garbage-collected heap, as compiled from GOROOT with seams inserted at build time",
	"the file system below the seam (a scratch directory)",
}

var stubParts = []string{
	"network: listeners and connections are simulated in memory (latency, buffering, stalls, resets, half-closes)",
	"clock and timers: simulated (testing/synctest bubble)",
	"scheduler: one goroutine runs at a time, chosen by the seeded scheduler; mutexes, once, wait groups and conditions block in it",
	"child processes (go install, the built binary): simulated by actors in the same process",
	"randomness of the runtime (map order, select, math/rand): seeded",
	"system call failures, short reads and writes, lost data, crashes: injected at the os package",
}

func (d *driver) evidence(t *tally, b budget, wall time.Duration, nviol int, known map[string]int) error {
	dir := os.Getenv("SIM_EVIDENCE_DIR")
	if dir == "" {
		return nil
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	hours := t.search.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	samples := t.samples
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":                   t.runs,
		"distinct_nontrivial":           len(t.distinctNT),
		"rule":                          d.spec.rule + " Two executions are the same when the sequences of scheduled tasks with the sites they resume at, and of recorded events, are the same.",
		"samples":                       samples,
		"nontrivial_runs":               t.nontrivial,
		"runs_under_the_race_detector":  t.raceRuns,
		"runs_per_hour":                 int(float64(t.runs) / hours),
		"seeds_per_hour":                int(float64(t.runs) / hours),
		"search_s":                      t.search.Seconds(),
		"simulated_time_s":              float64(t.sum.SimNanos) / 1e9,
		"distinct_executions":           len(t.distinct),
		"distinct_interleavings":        len(t.scheds),
		"interleaving_measure":          "hash of all preemption points and of all picks among the ready tasks",
		"schedule_policies":             t.policies,
		"statements_yielded_at":         t.sum.Yields,
		"scheduling_decisions":          t.sum.Picks,
		"preemptions":                   t.sum.Preempts,
		"requests_served":               t.sum.Requests,
		"builds_run":                    t.sum.Builds,
		"operations_at_the_seams":       t.sum.Ops,
		"faults_injected":               t.sum.Faults,
		"runs_by_number_of_faults_to_5": intKeys(t.faultsPerRun),
		"probes":                        t.sum.Probes,
		"determinism_rechecked":         t.rechecked,
		"determinism_mismatches":        t.mismatch,
		"runs_repeated_after_a_timeout": t.timedOut,
		"runs_out_of_schedule_budget":   t.overrun,
		"planned_runs":                  b.runs + b.race,
		"known_findings_met":            known,
		"real_components":               realParts,
		"stubbed_components":            stubParts,
	}
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"a statement of booklit is executed without interruption except where it calls into an instrumented package (the race detector covers what this leaves out, where it is used)",
			"the file system below the seam keeps what was written and renamed, except for what an injected fault takes away",
			"the reference model of the documents in sim/harness/model.go says what the generated documents mean",
		},
		"wall_s": wall.Seconds(), "violations": nviol,
	}
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, d.prop+".json"), append(j, '\n'), 0o644)
}

func intKeys(m map[int]int) map[string]int {
	out := map[string]int{}
	for k, v := range m {
		s := fmt.Sprint(k)
		if k >= 5 {
			s = "5 or more"
		}
		out[s] = v
	}
	return out
}

// nonTrivial says whether a run exercised what its property is about.
func nonTrivial(o *runOut) bool {
	probes, faults := map[string]int{}, map[string]int{}
	for _, s := range o.res.Stats {
		for k, v := range s.Probes {
			probes[k] += v
		}
		for k, v := range s.Faults {
			faults[k] += v
		}
	}
	short := faults["short:read"]
	delete(faults, "short:read")
	p := o.plan
	switch p.Prop {
	case "C01":
		return probes["edit"] > 0 && probes["settled"] > 0
	case "C02", "C10", "C12":
		return probes["overlap"] > 0
	case "C03":
		return probes["bad-client"] > 0 || probes["defect-reported"] > 0
	case "C15":
		return probes["edit"] > 0 || probes["bad-client"] > 0 || probes["defect-reported"] > 0
	case "C04", "C09", "C14":
		return len(faults) > 0 || probes["defect-reported"] > 0
	case "C05":
		return len(faults) > 0
	case "C06":
		return len(faults) > 0 || short > 0
	case "C07":
		old := false
		for _, s := range p.Steps {
			old = old || len(s.Old) > 0
		}
		return len(faults) > 0 || old
	case "C08":
		return len(p.Steps) > 1 && probes["success-judged"] > 1
	case "C11":
		return probes["slow-call"] > 0
	case "C13":
		r := p.Reexec
		return len(faults) > 0 || r.Procs > 1 || r.Install.Exit+r.Install.Signal+r.Run.Exit+r.Run.Signal > 0 || r.Install.Start+r.Run.Start != ""
	}
	return true
}
