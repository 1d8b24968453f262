//go:build go1.22

package verifsim

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/vito/booklit/booklitcmd"
)

var theSim *sim

// Violation is one broken promise.
type Violation struct {
	Rule   string `json:"rule"`
	Detail string `json:"detail"`
}

// Result is what one run reports.
type Result struct {
	Violations []Violation `json:"violations,omitempty"`
	Note       string      `json:"note,omitempty"`
	Invalid    string      `json:"invalid,omitempty"` // the plan cannot be run as meant (only while shrinking)
	Stats      []stats     `json:"stats"`
	Rec        []Sched     `json:"rec"`
	Trace      []string    `json:"trace,omitempty"`
	Profile    []ProfOp    `json:"profile,omitempty"`
	Escapes    []string    `json:"escapes,omitempty"`
	Summary    string      `json:"summary,omitempty"`
	Done       bool        `json:"done"`
}

// ProfOp is one kind of operation seen in a run, with how often.
type ProfOp struct {
	Actor string `json:"a"`
	Kind  string `json:"k"`
	Path  string `json:"p"`
	N     int    `json:"n"`
}

// worker state handed from one process image to the next
type carry struct {
	Result Result                     `json:"result"`
	Data   map[string]json.RawMessage `json:"data"`
}

type worker struct {
	dir   string // private directory of the run
	root  string // what the system under test sees as its working directory
	plan  *Plan
	phase int
	c     carry
	t     *testing.T
}

func (w *worker) put(key string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	w.c.Data[key] = b
}

func (w *worker) get(key string, v any) bool {
	b, ok := w.c.Data[key]
	if ok {
		if err := json.Unmarshal(b, v); err != nil {
			panic(err)
		}
	}
	return ok
}

func (w *worker) violation(rule, format string, args ...any) {
	for _, v := range w.c.Result.Violations {
		if v.Rule == rule && len(w.c.Result.Violations) > 3 {
			return
		}
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 1500 {
		d = d[:1500] + "..."
	}
	w.c.Result.Violations = append(w.c.Result.Violations, Violation{rule, d})
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(70)
	}
}

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

// TestSim is the worker: it runs the plan in SIM_DIR/plan.json, one process image
// per phase, and leaves SIM_DIR/result.json.
func TestSim(t *testing.T) {
	dir := os.Getenv("SIM_DIR")
	if dir == "" {
		t.Skip("not a simulation worker")
	}
	w := &worker{dir: dir, root: filepath.Join(dir, "w"), plan: &Plan{}, t: t}
	if prop := os.Getenv("SIM_PROP"); prop != "" {
		seed, _ := strconv.ParseUint(os.Getenv("SIM_SEED"), 10, 64)
		writeJSON(filepath.Join(dir, "plan.json"), genPlan(prop, seed, os.Getenv("SIM_RACE") != ""))
		os.Unsetenv("SIM_PROP")
	}
	if err := readJSON(filepath.Join(dir, "plan.json"), w.plan); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(70)
	}
	w.phase, _ = strconv.Atoi(os.Getenv("SIM_PHASE"))
	w.c.Data = map[string]json.RawMessage{}
	if w.phase > 0 {
		if err := readJSON(filepath.Join(dir, "carry.json"), &w.c); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(70)
		}
	} else if err := os.MkdirAll(filepath.Join(w.root, "tmp"), 0o755); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(70)
	}
	if err := os.Chdir(w.root); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(70)
	}
	debug.SetGCPercent(-1) // except where pages are very large
	debug.SetMemoryLimit(1 << 30)
	runtime.MemProfileRate = 0
	phases := kinds[w.plan.Kind]
	if phases == nil {
		fmt.Fprintln(os.Stderr, "harness: unknown kind", w.plan.Kind)
		os.Exit(70)
	}
	synctest.Test(t, func(t *testing.T) {
		more := phases[min(w.phase, len(phases)-1)](w)
		if theSim != nil {
			theSim.finish()
			w.c.Result.Stats = append(w.c.Result.Stats, theSim.stats)
			w.c.Result.Rec = append(w.c.Result.Rec, theSim.rec)
			w.c.Result.Escapes = append(w.c.Result.Escapes, theSim.fs.escapes...)
			if os.Getenv("SIM_TRACE") != "" {
				for _, e := range theSim.log {
					w.c.Result.Trace = append(w.c.Result.Trace, fmt.Sprintf("%5d %12s %-10s %s", e.Seq, e.At, e.Who, e.What))
				}
			}
			if theSim.overrun {
				w.c.Result.Note = "schedule budget exhausted"
				w.violation("spin", "no end after %d statements and %d scheduling decisions", theSim.yields, theSim.picks)
			}
		}
		if more {
			writeJSON(filepath.Join(dir, "carry.json"), &w.c)
			env := []string{}
			for _, kv := range syscall.Environ() {
				if !strings.HasPrefix(kv, "SIM_PHASE=") && !strings.HasPrefix(kv, "SIM_PROP=") {
					env = append(env, kv)
				}
			}
			env = append(env, "SIM_PHASE="+strconv.Itoa(w.phase+1))
			exe, _ := os.Readlink("/proc/self/exe")
			err := syscall.Exec(exe, selfArgs, env)
			fmt.Fprintln(os.Stderr, "harness: exec:", err)
			os.Exit(70)
		}
		w.c.Result.Done = true
		writeJSON(filepath.Join(dir, "result.json"), &w.c.Result)
		os.Exit(0)
	})
}

// start makes the simulation of this process image.
func (w *worker) start() *sim { return w.startWith(w.plan.Sched) }

func (w *worker) startWith(sc Sched) *sim {
	p := w.plan
	quiet() // the root goroutine is not part of the system under test
	runtime.SimInit(p.SimSeed)
	s := newSim(sc, w.root)
	theSim = s
	s.logging = os.Getenv("SIM_PICKS") != ""
	runtime.SimYield = s.yield
	runtime.SimBlockFn = s.block
	runtime.SimWakeFn = s.wake
	s.fs.install()
	s.net.install()
	s.exe.install()
	s.fs.short = p.Short
	if p.World != nil {
		pad := p.World.pad()
		s.maxYields += padYields * uint64(pad)
		s.maxPicks += padPicks * pad
		if s.fs.short > 0 && pad > 40000 {
			s.fs.short = 4096
		}
	}
	if p.NetBuf > 0 {
		s.net.bufSize = p.NetBuf
	}
	os.SimExit = s.exit
	os.SimGetenv = func(k string) (string, bool) {
		if a := s.me(); a != nil {
			if k == "TMPDIR" && a.env[k] == "" {
				return filepath.Join(w.root, "tmp"), true
			}
			v, ok := a.env[k]
			return v, ok
		}
		return "", false
	}
	os.SimEnviron = func() []string {
		var out []string
		if a := s.me(); a != nil {
			for _, k := range sortedKeys(a.env) {
				out = append(out, k+"="+a.env[k])
			}
		}
		return out
	}
	setupPlugin(p)
	return s
}

var _ net.Listener

// dir is the output directory.
func (c *CmdPlan) dir() string { return filepath.Join("out", c.Sub) }

func (c *CmdPlan) args(w *World) []string {
	a := []string{"booklit", "--in", w.Files[0].Path}
	if c.Out {
		arg := "OUT"
		if c.OutArg != "" {
			arg = c.OutArg
		}
		a = append(a, "--out", strings.ReplaceAll(arg, "OUT", c.dir()))
	}
	if c.Serve {
		a = append(a, "--serve", "8080")
	}
	if c.Templates {
		if c.Text != "" {
			a = append(a, "--text-templates", "templates")
		} else {
			a = append(a, "--html-templates", "templates")
		}
	}
	if c.Text != "" {
		a = append(a, "--text-file-extension", c.Text)
	}
	if c.Search {
		a = append(a, "--save-search-index")
	}
	if c.Debug {
		a = append(a, "--debug")
	}
	if c.AllowBroken {
		a = append(a, "--allow-broken-references")
	}
	if c.SectionTag != "" {
		a = append(a, "--section-tag", c.SectionTag)
	}
	if c.SectionFile > 0 {
		a = append(a, "--section-path", w.Files[c.SectionFile].Path)
	}
	if c.Threshold != "" {
		a = append(a, "--slow-invoke-threshold", c.Threshold)
	}
	for _, p := range c.Plugins {
		a = append(a, "--plugin", p)
	}
	a = append(a, c.Extra...)
	return a
}

// command starts the booklit program as an actor of its own.
func (s *sim) command(name string, args []string) *actor {
	a := s.newActor(name, map[string]string{"PATH": "/usr/bin"})
	s.spawn(a, func() {
		os.Args = args
		booklitcmd.Main()
	})
	return a
}

// ------------------------------------------------------------------- files

type editor struct {
	s     *sim
	w     *World
	st    State // what is on disk now
	last  time.Time
	hist  map[string][]span
	torn  map[string]bool
	olds  int
	salt  string // something different, of no consequence, in everything that is written
	slots int
	gen   map[string]int
	cut   map[string]bool // paths of documents that are cut short for good
}

// span is how long one variant of one file was what a reader could find.
type span struct {
	v        int
	torn     bool
	from, to int // event numbers; to 0: still there
}

func newEditor(s *sim, w *World, st State) *editor {
	return &editor{s: s, w: w, st: st.clone(), hist: map[string][]span{}, torn: map[string]bool{}, gen: map[string]int{}, cut: map[string]bool{}}
}

func (e *editor) path(what string, i int) string {
	switch what {
	case "f":
		return e.w.Files[i].Path
	case "t":
		return "templates/" + e.w.Tmpls[i].Name + ".tmpl"
	}
	return "out/" + e.w.Statics[i].Name
}

func (e *editor) text(what string, i, v int) string {
	switch what {
	case "f":
		text := e.w.lit(i, v)
		if e.salt != "" {
			text = strings.ReplaceAll(text, "salt000000", e.salt) + "\n\n{- " + e.salt + " -}\n"
		}
		return text
	case "t":
		text := e.w.tmpl(i, v)
		if e.salt != "" {
			text = e.salt + "\n" + text
		}
		return text
	}
	return e.w.static(i, v)
}

func (e *editor) slot(what string, i int) *int {
	switch what {
	case "f":
		return &e.st.F[i]
	case "t":
		return &e.st.T[i]
	}
	return &e.st.S[i]
}

// stampTime gives every change a modification time of its own.
func (e *editor) stampTime(old bool) time.Time {
	if old {
		e.olds++
		return e.s.start.Add(-time.Duration(1000+e.olds) * time.Second)
	}
	t := time.Now()
	if !t.After(e.last) {
		t = e.last.Add(time.Millisecond)
	}
	e.last = t
	return t
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(70)
	}
}

// place is where the text of a file really is: for a symbolic link, what it
// leads to.
func (e *editor) place(what string, i int) string {
	if e.w.linked(what, i) {
		return fmt.Sprintf("store/%s%d.%d", map[string]string{"f": "doc", "t": "tmpl"}[what], i, e.gen[what+strconv.Itoa(i)])
	}
	return e.path(what, i)
}

// link makes the symbolic link, in one step.
func (e *editor) link(what string, i int) {
	p := e.path(what, i)
	to, err := filepath.Rel(filepath.Dir(p), e.place(what, i))
	must(err)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	_ = os.Remove(p + "~")
	must(os.Symlink(to, p+"~"))
	must(os.Rename(p+"~", p))
}

func (e *editor) put(path, text string, t time.Time) {
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, []byte(text), 0o644))
	must(os.Chtimes(path, t, t))
}

// init writes the first state.
func (e *editor) init() {
	n := 0
	base := e.s.start.Add(-time.Hour - time.Duration(e.s.inits)*time.Minute)
	e.s.inits++
	all := func(what string, vs []int) {
		for i, v := range vs {
			n++
			key := what + strconv.Itoa(i)
			e.hist[key] = []span{{v: v, from: 0}}
			if v >= 0 {
				t := base.Add(time.Duration(n) * time.Second)
				if e.w.SameTime {
					t = base
				}
				e.put(e.place(what, i), e.text(what, i, v), t)
				if e.w.linked(what, i) {
					e.link(what, i)
				}
			}
		}
	}
	if e.w.Chroma {
		e.put("templates/code-block.tmpl", "<div class=\"{{.Partial \"Language\"}}\">{{.Content | render}}</div>", base)
	}
	all("f", e.st.F)
	all("t", e.st.T)
	all("s", e.st.S)
}

func (e *editor) mark(what string, i, v int, torn bool) {
	key := what + strconv.Itoa(i)
	h := e.hist[key]
	n := e.s.event("editor", fmt.Sprintf("%s is now %d torn=%v", e.path(what, i), v, torn))
	if len(h) > 0 && h[len(h)-1].to == 0 {
		h[len(h)-1].to = n
	}
	e.hist[key] = append(h, span{v: v, torn: torn, from: n})
	*e.slot(what, i) = v
	e.s.stats.Probes["edit"]++
}

// do performs an edit; between its steps other actors may run.
func (e *editor) do(ed *Edit, wait bool) {
	if ed.Wait > 0 && wait {
		e.s.sleep(time.Duration(ed.Wait) * time.Millisecond)
	}
	p := e.path(ed.What, ed.Idx)
	delete(e.cut, p)
	if ed.Var < 0 {
		if e.w.linked(ed.What, ed.Idx) && ed.What == "f" && ed.Wait%2 == 1 {
			p = e.place("f", ed.Idx) // the link leads nowhere from now on
		}
		raw(func() { os.Remove(p) })
		e.mark(ed.What, ed.Idx, -1, false)
		return
	}
	text := e.text(ed.What, ed.Idx, ed.Var)
	if ed.Short {
		if ed.Cut < 0 {
			text = strings.Repeat("\n", strings.Count(text, "\n")) // as many lines, but empty
		} else {
			text = text[:min(ed.Cut, len(text))]
		}
		e.cut[p] = true
	}
	link := e.w.linked(ed.What, ed.Idx)
	gone := *e.slot(ed.What, ed.Idx) < 0
	how := ed.How
	if how == "relink" && !link {
		how = "rename"
	}
	switch how {
	case "relink":
		// a new file, and then the link is turned to it
		raw(func() {
			e.gen[ed.What+strconv.Itoa(ed.Idx)]++
			e.put(e.place(ed.What, ed.Idx), text, e.stampTime(ed.Wait%2 == 1))
			e.link(ed.What, ed.Idx)
		})
	case "rename", "restore":
		raw(func() {
			q := e.place(ed.What, ed.Idx)
			tmp := q + "~"
			e.put(tmp, text, e.stampTime(how == "restore"))
			must(os.Rename(tmp, q))
			if link && gone {
				e.link(ed.What, ed.Idx)
			}
		})
	default:
		q := e.place(ed.What, ed.Idx)
		if wait && ed.Cut >= 0 && !ed.Short {
			cut := ed.Cut % (len(text) + 1)
			e.mark(ed.What, ed.Idx, ed.Var, true)
			raw(func() {
				e.put(q, text[:cut], e.stampTime(false))
				if link && gone {
					e.link(ed.What, ed.Idx)
				}
			})
			e.s.yield(-10)
			if ed.Gap > 0 {
				e.s.sleep(time.Duration(ed.Gap) * time.Millisecond)
			}
		}
		if t := e.s.fs.track[p]; t != nil && t.opens > 0 && t.closes == 0 {
			t.torn = true
		}
		if e.s.fs.isOpen(p) {
			// whoever is reading it now gets some of each
			e.mark(ed.What, ed.Idx, ed.Var, true)
		}
		raw(func() {
			e.put(q, text, e.stampTime(false))
			if link && gone {
				e.link(ed.What, ed.Idx)
			}
		})
	}
	if ed.Short {
		was := *e.slot(ed.What, ed.Idx)
		e.mark(ed.What, ed.Idx, was, true)
		return
	}
	e.mark(ed.What, ed.Idx, ed.Var, false)
}

// variantAt is which variant of a document is at a path now.
func (e *editor) variantAt(rel string) int {
	for i, f := range e.w.Files {
		if f.Path == rel {
			if e.cut[rel] {
				return -2
			}
			return e.st.F[i]
		}
	}
	return -1
}

// loaded lists the states the system under test can have loaded since it was
// first watched (at event from), and the errors it can have met doing so; ok is
// false if it can have read half of something.
func (e *editor) loaded(from int) (states []State, errs []string, ok bool) {
	states = []State{e.st.clone()}
	for i, f := range e.w.Files {
		vs, _ := e.live("f", i, from, 1<<60)
		if t := e.s.fs.track[f.Path]; t != nil {
			if t.torn || t.opens > 0 && t.variant < -1 {
				return nil, nil, false
			}
			if t.opens > 0 {
				vs = []int{t.variant}
			}
		}
		var next []State
		for _, st := range states {
			for _, v := range vs {
				c := st.clone()
				c.F[i] = v
				next = append(next, c)
			}
		}
		if states = next; len(states) > 100 {
			return nil, nil, false
		}
	}
	for _, p := range sortedKeys(e.s.fs.track) {
		errs = append(errs, e.s.fs.track[p].errs...)
	}
	return states, errs, true
}

// live lists the variants of a file a reader may have seen between two events.
func (e *editor) live(what string, i, from, to int) (vs []int, torn bool) {
	seen := map[int]bool{}
	for _, sp := range e.hist[what+strconv.Itoa(i)] {
		if sp.from > to || sp.to != 0 && sp.to < from {
			continue
		}
		if sp.torn {
			torn = true
			continue
		}
		if !seen[sp.v] {
			seen[sp.v] = true
			vs = append(vs, sp.v)
		}
	}
	return
}

var _ = exec.ErrNotFound

var selfArgs = append([]string(nil), os.Args...)

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}
