//go:build go1.22

package verifsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// The driver: it runs the simulations of one property, each in processes of its
// own, judges what they report, minimises what fails, and writes the evidence.
// Nothing in this file runs inside a simulation.

// budget is how much one tier explores. Search ends after Runs (and Race) runs,
// or after Cap.
type budget struct {
	runs, race int
	cap        time.Duration
}

type propSpec struct {
	quick    budget
	thorough budget
	only     []string // rules that count; empty: every rule but those in not
	not      []string
	rule     string // how cases are made, and what makes one non-trivial
}

const (
	exitHeld     = 0
	exitViolated = 1
	exitTrouble  = 3
)

// outcome of one simulated run
type runOut struct {
	seed     uint64
	race     bool
	plan     *Plan
	res      *Result
	viols    []Violation
	trouble  string // the harness could not tell
	timedOut bool
	wall     time.Duration
}

type driver struct {
	prop    string
	spec    propSpec
	tier    string
	seed    uint64
	bin     string
	raceBin string
	scratch string
	procs   int
	timeout time.Duration
	nrun    atomic.Int64
}

// TestDrive is the entry point of a check.
func TestDrive(t *testing.T) {
	prop := os.Getenv("SIM_DRIVE")
	if prop == "" {
		t.Skip("not a check")
	}
	os.Exit(drive(prop))
}

func trouble(format string, args ...any) int {
	fmt.Printf("ERROR "+format+"\n", args...)
	return exitTrouble
}

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func drive(prop string) int {
	spec, ok := specs[prop]
	if !ok && os.Getenv("SIM_REPLAY") == "" {
		return trouble("no such property: %s", prop)
	}
	d := &driver{prop: prop, spec: spec, tier: os.Getenv("VERIF_TIER"), procs: runtime.NumCPU(), timeout: 90 * time.Second,
		raceBin: os.Getenv("SIM_RACE_BIN")}
	if d.tier != "thorough" {
		d.tier = "quick"
	}
	d.procs = envInt("SIM_PROCS", d.procs)
	d.seed = uint64(envInt("VERIF_SEED", 1))
	d.bin, _ = os.Readlink("/proc/self/exe")
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = os.TempDir()
	}
	var err error
	if d.scratch, err = os.MkdirTemp(base, "booklit-sim-"); err != nil {
		if d.scratch, err = os.MkdirTemp("", "booklit-sim-"); err != nil {
			return trouble("%s", err)
		}
	}
	defer os.RemoveAll(d.scratch)
	if f := os.Getenv("SIM_REPLAY"); f != "" {
		return d.replay(f)
	}
	return d.check()
}

// ------------------------------------------------------------- single runs

// run performs one simulation: of a seed, or of a plan.
func (d *driver) run(seed uint64, plan *Plan, race, trace bool) *runOut {
	o := &runOut{seed: seed, race: race, plan: plan}
	dir := filepath.Join(d.scratch, strconv.FormatInt(d.nrun.Add(1), 10))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		o.trouble = err.Error()
		return o
	}
	defer os.RemoveAll(dir)
	bin := d.bin
	if race {
		bin = d.raceBin
	}
	cmd := exec.Command(bin, "-test.run", "^TestSim$", "-test.timeout", "0")
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "LANG=C", "TZ=UTC", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1",
		"GORACE=halt_on_error=0 exitcode=0 history_size=3", "GOTRACEBACK=all", "SIM_DIR=" + dir}
	if race {
		cmd.Env = append(cmd.Env, "SIM_RACE=1")
	}
	if trace {
		cmd.Env = append(cmd.Env, "SIM_TRACE=1")
	}
	if plan != nil {
		b, _ := json.Marshal(plan)
		if err := os.WriteFile(filepath.Join(dir, "plan.json"), b, 0o644); err != nil {
			o.trouble = err.Error()
			return o
		}
	} else {
		cmd.Env = append(cmd.Env, "SIM_PROP="+d.prop, "SIM_SEED="+strconv.FormatUint(seed, 10))
	}
	var stderr cappedBuffer
	cmd.Stderr = &stderr
	began := time.Now()
	if err := cmd.Start(); err != nil {
		o.trouble = err.Error()
		return o
	}
	timer := time.AfterFunc(d.timeout, func() {
		o.timedOut = true
		_ = cmd.Process.Kill()
	})
	err := cmd.Wait()
	timer.Stop()
	o.wall = time.Since(began)
	if o.plan == nil {
		p := &Plan{}
		if e := readJSON(filepath.Join(dir, "plan.json"), p); e == nil {
			o.plan = p
		}
	}
	res := &Result{}
	if e := readJSON(filepath.Join(dir, "result.json"), res); e == nil && res.Done {
		o.res = res
		for _, v := range res.Violations {
			if d.counts(v.Rule) {
				o.viols = append(o.viols, v)
			}
		}
		if len(res.Escapes) > 0 {
			o.viols = append(o.viols, Violation{"escape", "writes outside of the working directory: " + strings.Join(res.Escapes, "; ")})
		}
		if race {
			if r := booklitRace(stderr.buf.String()); r != "" {
				o.viols = append(o.viols, Violation{"race", r})
			}
		}
		return o
	}
	switch {
	case o.timedOut:
		o.trouble = fmt.Sprintf("no result after %s", d.timeout)
	default:
		what := crashed(stderr.buf.String())
		if what == "" {
			o.trouble = fmt.Sprintf("worker ended without a result (%v): %s", err, lastBytes(stderr.buf.String(), 1500))
			return o
		}
		o.viols = append(o.viols, Violation{"crash", what})
	}
	return o
}

func (d *driver) counts(rule string) bool {
	if rule == "spin" || rule == "crash" || rule == "escape" {
		return true
	}
	for _, r := range d.spec.not {
		if r == rule {
			return false
		}
	}
	if len(d.spec.only) == 0 {
		return true
	}
	for _, r := range d.spec.only {
		if r == rule {
			return true
		}
	}
	return false
}

type cappedBuffer struct{ buf bytes.Buffer }

func (c *cappedBuffer) Write(b []byte) (int, error) {
	if room := 4<<20 - c.buf.Len(); room > 0 {
		c.buf.Write(b[:min(room, len(b))])
	}
	return len(b), nil
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

const modulePath = "github.com/vito/booklit"

// owner says whose the innermost interesting frame of a stack is: "booklit",
// "sim" (the simulator) or "".
func owner(stack string) (string, string) {
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "      ") {
			continue
		}
		line = strings.TrimSpace(line)
		if strings.HasPrefix(line, "created by") {
			break
		}
		if !strings.HasPrefix(line, modulePath) {
			continue
		}
		if strings.HasPrefix(line, modulePath+"/verifsim") {
			return "sim", line
		}
		return "booklit", line
	}
	return "", ""
}

// crashed describes how the process died if it died in booklit's code.
func crashed(stderr string) string {
	i := strings.Index(stderr, "\nfatal error: ")
	if strings.HasPrefix(stderr, "fatal error: ") {
		i = 0
	}
	j := strings.Index(stderr, "panic: ")
	switch {
	case i < 0 && j < 0:
		return ""
	case i < 0 || j >= 0 && j < i:
		i = j
	}
	s := strings.TrimSpace(stderr[i:])
	first, _, _ := strings.Cut(s, "\n")
	g := strings.Index(s, "\ngoroutine ")
	if g < 0 {
		return ""
	}
	stack := s[g+1:]
	if e := strings.Index(stack, "\n\n"); e >= 0 {
		stack = stack[:e]
	}
	// a deferred call of the simulator may be on top of the panic
	if p := strings.Index(stack, "\npanic("); p >= 0 {
		stack = stack[p:]
	}
	who, frame := owner(stack)
	if who == "sim" && strings.HasPrefix(first, "panic: ") {
		// a function of a document panics: no fault of booklit's, unless it
		// called it where nobody recovers from it
		msg := strings.TrimPrefix(first, "panic: ")
		if c := strings.Index(stack, "\ncreated by "+modulePath); c >= 0 && (strings.HasPrefix(msg, lazyPanic) || strings.HasPrefix(msg, "panicking")) {
			frame = strings.TrimSpace(strings.SplitN(stack[c+1:], "\n", 2)[0])
			if !strings.Contains(frame, modulePath+"/verifsim") {
				who = "booklit"
			}
		}
	}
	if who != "booklit" {
		return ""
	}
	return fmt.Sprintf("the process crashes: %s, in %s", first, frame)
}

// booklitRace returns the first report of the race detector in which both
// accesses are made by booklit's own code (or by libraries it calls).
func booklitRace(stderr string) string {
	for _, rep := range strings.Split(stderr, "WARNING: DATA RACE\n")[1:] {
		rep, _, _ = strings.Cut(rep, "==================")
		parts := strings.Split(rep, "\n\n")
		if len(parts) < 2 {
			continue
		}
		a, fa := owner(parts[0])
		b, fb := owner(parts[1])
		if a == "booklit" && b == "booklit" {
			return fmt.Sprintf("data race: %s and %s\n%s\n%s", fa, fb, parts[0], parts[1])
		}
	}
	return ""
}

// -------------------------------------------------------------- the search

func (d *driver) check() int {
	began := time.Now()
	b := d.spec.quick
	if d.tier == "thorough" {
		b = d.spec.thorough
	}
	b.runs = envInt("SIM_RUNS", b.runs)
	b.race = envInt("SIM_RACE_RUNS", b.race)
	if s := envInt("SIM_CAP", 0); s > 0 {
		b.cap = time.Duration(s) * time.Second
	}
	if d.raceBin == "" {
		b.race = 0
	}
	known, err := loadKnown(os.Getenv("SIM_KNOWN"), d.prop)
	if err != nil {
		return trouble("%s", err)
	}
	type job struct {
		seed  uint64
		race  bool
		again bool
	}
	var jobs []job
	rnd := newPRNG(d.seed, d.prop)
	nr := 0
	for i := 0; i < b.runs; i++ {
		seed := rnd.u64() >> 1
		jobs = append(jobs, job{seed: seed})
		// runs under the race detector are spread evenly among the others
		for b.race > 0 && nr*b.runs < (i+1)*b.race {
			nr++
			jobs = append(jobs, job{seed: rnd.u64() >> 1, race: true})
		}
		if i%50 == 25 {
			jobs = append(jobs, job{seed: seed, again: true})
		}
	}
	st := newTally()
	var mu sync.Mutex
	var failed []*runOut
	var troubles []*runOut
	var knownSeen = map[string]int{}
	traces := map[uint64]string{}
	mismatch := 0
	next := 0
	var wg sync.WaitGroup
	for i := 0; i < d.procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || len(failed) > 0 || len(troubles) > 3 || time.Since(began) > b.cap {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				o := d.run(j.seed, nil, j.race, false)
				if o.timedOut {
					o = d.run(j.seed, nil, j.race, false)
				}
				mu.Lock()
				if j.again {
					if t, ok := traces[j.seed]; ok && o.res != nil && t != traceKey(o.res) {
						mismatch++
					}
					st.rechecked++
					mu.Unlock()
					continue
				}
				if o.res != nil && !j.race {
					traces[j.seed] = traceKey(o.res)
				}
				st.add(o)
				switch {
				case o.trouble != "":
					troubles = append(troubles, o)
				case len(o.viols) > 0:
					if k := known.match(o.viols); k != "" {
						knownSeen[k]++
					} else {
						failed = append(failed, o)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	st.search = time.Since(began)
	st.mismatch = mismatch
	code := exitHeld
	var nviol int
	if len(failed) > 0 {
		sort.Slice(failed, func(i, j int) bool { return failed[i].seed < failed[j].seed })
		sort.SliceStable(failed, func(i, j int) bool { return !failed[i].race && failed[j].race })
		confirmed := false
		for _, f := range failed {
			if d.report(f) {
				confirmed = true
				nviol++
				code = exitViolated
				break
			}
		}
		if !confirmed {
			for _, f := range failed {
				fmt.Printf("NOT REPRODUCED seed=%d race=%v %s: %s\n", f.seed, f.race, f.viols[0].Rule, f.viols[0].Detail)
			}
			code = exitTrouble
		}
	}
	if code == exitHeld && len(troubles) > 0 {
		for _, o := range troubles {
			fmt.Printf("ERROR seed=%d race=%v: %s\n", o.seed, o.race, o.trouble)
		}
		code = exitTrouble
	}
	if code == exitHeld && st.runs == 0 {
		code = trouble("nothing was run")
	}
	for _, k := range known.open {
		if code == exitHeld {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.what)
		}
	}
	if err := d.evidence(st, b, time.Since(began), nviol, knownSeen); err != nil {
		return trouble("%s", err)
	}
	fmt.Printf("%s %s seed=%d: %d simulated runs (%d under the race detector), %d non-trivial, %d distinct executions, %.0f s, exit %d\n",
		d.prop, d.tier, d.seed, st.runs, st.raceRuns, st.nontrivial, len(st.distinct), time.Since(began).Seconds(), code)
	return code
}

func traceKey(r *Result) string {
	s := ""
	for _, x := range r.Stats {
		s += x.TraceHash + "/" + x.SchedHash + " "
	}
	return s + fmt.Sprint(len(r.Violations))
}

// ------------------------------------------------------------- known findings

type knownEntry struct {
	rule string
	re   *regexp.Regexp
	what string
}

type knownSet struct{ open []knownEntry }

// loadKnown reads the known-findings file: lines
//
//	open: property=C01 rule=quiet match=<regexp> what=<text>
//	fixed: property=C01 <commit> <text>
func loadKnown(path, prop string) (*knownSet, error) {
	k := &knownSet{}
	if path == "" {
		return k, nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`^open: property=(\S+) rule=(\S+) match=(.*) what=(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil || m[1] != prop {
			continue
		}
		x, err := regexp.Compile(m[3])
		if err != nil {
			return nil, err
		}
		k.open = append(k.open, knownEntry{m[2], x, m[4]})
	}
	return k, nil
}

// match reports the finding when every violation of a run is a listed one.
func (k *knownSet) match(vs []Violation) string {
	what := ""
	for _, v := range vs {
		hit := false
		for _, e := range k.open {
			if e.rule == v.Rule && e.re.MatchString(v.Detail) {
				hit, what = true, e.what
			}
		}
		if !hit {
			return ""
		}
	}
	return what
}

// ------------------------------------------------------------------ reports

// Replay is the file a violation is reported with.
type Replay struct {
	Property string   `json:"property"`
	Rule     string   `json:"rule"`
	Detail   string   `json:"detail"`
	Seed     uint64   `json:"seed"`
	Race     bool     `json:"race,omitempty"`
	Found    string   `json:"found"`
	Shrunk   string   `json:"shrunk"`
	Faults   []string `json:"schedule_and_faults"`
	Plan     *Plan    `json:"plan"`
	Trace    []string `json:"trace"`
}

func hasRule(vs []Violation, rule string) *Violation {
	for i := range vs {
		if vs[i].Rule == rule {
			return &vs[i]
		}
	}
	return nil
}

// report confirms a violation in fresh processes, minimises it and writes the
// replay file.
func (d *driver) report(f *runOut) bool {
	rule := f.viols[0].Rule
	if f.plan == nil {
		return false
	}
	again := d.run(f.seed, f.plan, f.race, false)
	if hasRule(again.viols, rule) == nil {
		return false
	}
	best, note := d.shrink(again, rule)
	last := d.run(f.seed, best.plan, f.race, true)
	v := hasRule(last.viols, rule)
	if v == nil {
		last, note = again, "not minimised: the minimised plan did not fail again"
		v = hasRule(again.viols, rule)
	}
	r := &Replay{Property: d.prop, Rule: rule, Detail: v.Detail, Seed: f.seed, Race: f.race, Shrunk: note, Plan: last.plan,
		Found: fmt.Sprintf("VERIF_SEED=%d run seed %d", d.seed, f.seed), Faults: planLines(last.plan)}
	if last.res != nil {
		r.Trace = last.res.Trace
	}
	dir := os.Getenv("SIM_REPLAY_DIR")
	if dir == "" {
		dir = "."
	}
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", d.prop, rule, f.seed))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Println("ERROR", err)
		return false
	}
	fmt.Printf("seed %d, rule %s: %s\n", f.seed, rule, v.Detail)
	fmt.Println(note)
	for _, l := range r.Faults {
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
	return true
}

// replay runs a replay file again.
func (d *driver) replay(file string) int {
	r := &Replay{}
	if err := readJSON(file, r); err != nil {
		return trouble("%s", err)
	}
	d.prop = r.Property
	d.spec = specs[d.prop]
	if r.Race && d.raceBin == "" {
		return trouble("this replay needs the race detector")
	}
	o := d.run(r.Seed, r.Plan, r.Race, true)
	if o.trouble != "" {
		return trouble("%s", o.trouble)
	}
	if o.res != nil {
		for _, l := range o.res.Trace {
			fmt.Println(l)
		}
	}
	for _, v := range o.viols {
		fmt.Printf("%s: %s\n", v.Rule, v.Detail)
	}
	if v := hasRule(o.viols, r.Rule); v != nil {
		if v.Detail == r.Detail {
			fmt.Println("same violation, same details")
		} else {
			fmt.Println("same rule, different details")
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, file)
		return exitViolated
	}
	fmt.Println("the violation does not occur")
	return exitHeld
}

// planLines says in words what is scheduled and injected.
func planLines(p *Plan) []string {
	var out []string
	sched := func(what string, s Sched) {
		const most = 50
		pre, picks, more := s.Preempts, s.Picks, ""
		if len(pre) > most || len(picks) > most {
			pre, picks, more = pre[:min(most, len(pre))], picks[:min(most, len(picks))], " and so on"
		}
		out = append(out, fmt.Sprintf("%s: schedule %s seed %d, set aside at %v, picks %v%s", what, s.Policy, s.Seed, pre, picks, more))
	}
	fault := func(what string, f *Fault) {
		b, _ := json.Marshal(f)
		out = append(out, what+": fault "+string(b))
	}
	if len(p.Steps) == 0 {
		sched("run", p.Sched)
	}
	for _, f := range p.Faults {
		fault("run", f)
	}
	for i, rd := range p.Rounds {
		for _, e := range rd.Edits {
			b, _ := json.Marshal(e)
			out = append(out, fmt.Sprintf("round %d: edit %s", i, b))
		}
		for _, f := range rd.Faults {
			fault(fmt.Sprintf("round %d", i), f)
		}
		for _, c := range rd.Clients {
			b, _ := json.Marshal(c)
			out = append(out, fmt.Sprintf("round %d: client %s", i, b))
		}
		for _, q := range rd.Quiet {
			out = append(out, fmt.Sprintf("round %d: afterwards GET %s", i, q.Path))
		}
	}
	for i, s := range p.Steps {
		sched(fmt.Sprintf("step %d", i), s.Sched)
		for _, f := range s.Faults {
			fault(fmt.Sprintf("step %d", i), f)
		}
	}
	return out
}
