//go:build go1.22

package verifsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// BuildStep is one run of the booklit command, in a process image of its own.
type BuildStep struct {
	State  State    `json:"state"`
	Cmd    CmdPlan  `json:"cmd"`
	Faults []*Fault `json:"faults,omitempty"`
	Sched  Sched    `json:"sched"`
	Seed   uint64   `json:"sim_seed"`
	Short  int      `json:"short_reads,omitempty"`
	Clock  int      `json:"clock_s,omitempty"`  // seconds that pass before it starts
	Zone   int      `json:"zone_min,omitempty"` // minutes east of Greenwich
	Tick   int      `json:"tick_ms,omitempty"`  // what every operation takes
	Env    []string `json:"env,omitempty"`
	Wipe   bool     `json:"wipe,omitempty"`   // start from an empty output directory
	Old    []int    `json:"old,omitempty"`    // leave garbage at these pages' places (index modulo pages)
	Mode   string   `json:"mode,omitempty"`   // how the documents are put there: "", or "old" (with old times)
	Edits  []*Edit  `json:"edits,omitempty"`  // performed by faults
	Strict bool     `json:"strict,omitempty"` // what it reports is judged by what it can have loaded
}

type outcome struct {
	Exit   int               `json:"exit"`
	Stdout []byte            `json:"stdout"`
	Stderr []byte            `json:"stderr"`
	Tree   map[string][]byte `json:"tree"`
	Before map[string][]byte `json:"before"`
	Fired  int               `json:"fired"`
	Errs   []string          `json:"errs"` // texts of the injected errors
	Hung   bool              `json:"hung"`
	Panic  string            `json:"panic"`
	Torn   bool              `json:"torn"`
	Ref    string            `json:"ref"`    // key of the reference build
	States []State           `json:"states"` // strict: what it can have loaded
	Loads  []string          `json:"loads"`  // and the errors it can have met loading it
	Unsure bool              `json:"unsure"`
}

func (b *BuildStep) refKey() string {
	c := b.Cmd
	c.Debug = false
	j, _ := json.Marshal(c)
	return b.State.key() + string(j)
}

func init() {
	kinds["build"] = []func(w *worker) bool{phaseBuild}
}

// phaseBuild runs step w.phase, or, after the last step, the reference builds,
// and finally judges them all.
func phaseBuild(w *worker) bool {
	p := w.plan
	n := len(p.Steps)
	var refs []*BuildStep
	seen := map[string]bool{}
	for _, b := range p.Steps {
		if k := b.refKey(); !seen[k] {
			seen[k] = true
			refs = append(refs, &BuildStep{State: b.State, Cmd: b.Cmd, Sched: Sched{Policy: "seq", Seed: 1}, Seed: 1, Wipe: true})
		}
	}
	var outs []outcome
	w.get("outs", &outs)
	if w.phase < n {
		outs = append(outs, runStep(w, p.Steps[w.phase]))
	} else {
		outs = append(outs, runStep(w, refs[w.phase-n]))
	}
	w.put("outs", outs)
	if w.phase+1 < n+len(refs) {
		return true
	}
	byKey := map[string]*outcome{}
	for i, b := range refs {
		byKey[b.refKey()] = &outs[n+i]
	}
	for i, b := range p.Steps {
		judgeStep(w, i, b, &outs[i], byKey[b.refKey()])
	}
	for i, b := range refs {
		judgeStep(w, n+i, b, &outs[n+i], nil)
	}
	if p.Repro {
		judgeSame(w, p.Steps, outs)
	}
	return false
}

func runStep(w *worker, b *BuildStep) (o outcome) {
	p := *w.plan
	p.Sched, p.SimSeed, p.Short = b.Sched, b.Seed, b.Short
	w.plan = &p
	s := w.startWith(b.Sched)
	if b.Clock > 0 {
		s.run(time.Duration(b.Clock)*time.Second, func() bool { return false })
	}
	wd := p.World
	m := wd.model(b.State.clone(), wd.Text, b.Cmd.ext())
	raw(func() {
		for _, d := range []string{"src", "templates", "store"} {
			must(os.RemoveAll(filepath.Join(w.root, d)))
		}
		must(os.MkdirAll("templates", 0o755))
		if b.Wipe {
			must(os.RemoveAll(filepath.Join(w.root, "out")))
		}
		if len(b.Old) > 0 && m.Err == "" {
			must(os.MkdirAll(b.Cmd.dir(), 0o755))
			ps := m.pages(m.root)
			for _, k := range b.Old {
				name := ps[k%len(ps)].tags[0].name + "." + b.Cmd.ext()
				if k%7 == 3 {
					name = "search_index.json"
				}
				must(os.WriteFile(filepath.Join(b.Cmd.dir(), name), []byte(strings.Repeat("leftover of something else entirely\n", 50+k*37%3000)), 0o644))
			}
		}
	})
	ed := newEditor(s, wd, b.State)
	ed.st.S = nil
	ed.init()
	o.Before = readTree(b.Cmd.dir())
	var fs []*Fault
	for _, f := range b.Faults {
		c := *f
		fs = append(fs, &c)
	}
	s.fs.faults = fs
	if b.Tick > 0 {
		s.fs.faults = append(s.fs.faults[:len(fs):len(fs)], &Fault{Actor: "build", Op: "any", Nth: 1, Count: -1, Mode: "delay", Delay: b.Tick})
	}
	if b.Strict {
		s.fs.edits = func(i int) {
			if i < len(b.Edits) {
				ed.do(b.Edits[i], false)
			}
		}
		s.fs.track, s.fs.variant = map[string]*tracked{}, ed.variantAt
	}
	if b.Zone != 0 {
		time.Local = time.FixedZone("XYZ", b.Zone*60)
	}
	a := s.command("build", b.Cmd.args(wd))
	for _, kv := range b.Env {
		k, v, _ := strings.Cut(kv, "=")
		a.env[k] = v
	}
	o.Hung = !s.run(progressLimit*2, func() bool { return a.exited })
	o.Exit, o.Stdout, o.Stderr, o.Panic = a.exitCode, a.stdout, a.stderr, a.panicked
	for _, f := range fs {
		o.Fired += f.fired
		if f.fired > 0 {
			if e, ok := errnos[f.Err]; ok && f.Mode != "crash" {
				o.Errs = append(o.Errs, e.Error())
			}
			if f.Mode == "crash" {
				o.Torn = true
			}
		}
	}
	if b.Strict {
		var ok bool
		o.States, o.Loads, ok = ed.loaded(0)
		o.Unsure = !ok
	}
	o.Tree = readTree(b.Cmd.dir())
	s.stats.Builds++
	return o
}

func (c *CmdPlan) ext() string {
	if c.Text != "" {
		return c.Text
	}
	return "html"
}

// wanted is what a build that reports success must have written.
type wanted struct {
	err   []string // the build has to fail, naming one of these
	pages map[string]*Page
	out   *Page // on standard output
	index map[string]IdxDoc
	m     *Model
}

func wantBuild(wd *World, b *BuildStep) *wanted {
	m := wd.model(b.State.clone(), wd.Text, b.Cmd.ext())
	wt := &wanted{m: m, pages: map[string]*Page{}}
	if b.Cmd.Templates && len(m.TErr) > 0 {
		wt.err = append(wt.err, m.TErr...)
		return wt
	}
	if m.Err != "" {
		wt.err = []string{m.Err}
		return wt
	}
	target := m.root
	switch {
	case b.Cmd.SectionTag != "":
		target = m.find(b.Cmd.SectionTag)
		if target == nil {
			wt.err = []string{b.Cmd.SectionTag}
			return wt
		}
	case b.Cmd.SectionFile > 0:
		target = m.extend(b.Cmd.SectionFile)
		if m.Err != "" {
			wt.err = []string{m.Err}
			return wt
		}
	}
	if !b.Cmd.Out {
		wt.out = m.page(target)
		if wt.out.Err != "" {
			wt.err = []string{wt.out.Err}
		}
		return wt
	}
	for _, s := range m.pages(target) {
		pg := m.page(s)
		if pg.Err != "" {
			wt.err = []string{pg.Err}
			return wt
		}
		wt.pages[pg.Name+"."+b.Cmd.ext()] = pg
	}
	if b.Cmd.Search {
		wt.index = m.index(m.root)
	}
	return wt
}

// judgeCause judges only whether a build reports what is wrong.
func judgeCause(w *worker, what string, b *BuildStep, o *outcome) {
	if o.Unsure {
		return
	}
	var want, content []string
	for _, st := range o.States {
		c := *b
		c.State = st
		wt := wantBuild(w.plan.World, &c)
		if o.Panic != "" {
			if len(wt.err) > 0 && strings.HasPrefix(wt.err[0], "panicking") {
				return
			}
			continue
		}
		if o.Exit == 0 && len(wt.err) == 0 {
			bad := ""
			judgeContent(what, b, o, nil, wt, func(rule, format string, args ...any) {
				if bad == "" {
					bad = fmt.Sprintf(format, args...)
				}
			})
			if bad == "" {
				return
			}
			content = append(content, bad)
		}
		if o.Exit != 0 && len(wt.err) > 0 && names(o.Stderr, wt.err) {
			theSim.probe("defect-reported")
			return
		}
		want = append(want, wt.err...)
	}
	if o.Panic != "" {
		w.violation("died", "%s panicked: %s", what, o.Panic)
		return
	}
	if o.Exit != 0 && len(o.Loads) > 0 && names(o.Stderr, o.Loads) {
		return
	}
	if len(content) > 0 {
		w.violation("content", "%s, with documents changing or failing meanwhile (%d states can have been loaded): %s", what, len(o.States), content[0])
		return
	}
	w.violation("cause", "%s, with documents changing or failing meanwhile (%d states can have been loaded, errors while loading: %q), ends with exit status %d, naming none of %q: %s",
		what, len(o.States), o.Loads, o.Exit, want, tail(o.Stderr))
}

func judgeStep(w *worker, i int, b *BuildStep, o, ref *outcome) {
	wd := w.plan.World
	what := fmt.Sprintf("run %d (booklit %s)", i, strings.Join(b.Cmd.args(wd)[1:], " "))
	if b.Strict && !o.Hung {
		judgeCause(w, what, b, o)
		return
	}
	if o.Hung {
		w.violation("hang", "%s did not end", what)
		return
	}
	if o.Torn && o.Exit == 137 {
		return
	}
	wt := wantBuild(wd, b)
	if o.Panic != "" && !(len(wt.err) > 0 && strings.HasPrefix(wt.err[0], "panicking")) {
		w.violation("died", "%s panicked: %s", what, o.Panic)
		return
	}
	if o.Exit != 0 {
		if len(bytes.TrimSpace(o.Stderr)) == 0 {
			w.violation("silent", "%s failed with exit status %d without saying why", what, o.Exit)
			return
		}
		if len(wt.err) > 0 && names(o.Stderr, wt.err) {
			theSim.probe("defect-reported")
			return
		}
		if o.Fired > 0 && names(o.Stderr, append(o.Errs, "short write")) {
			theSim.probe("defect-reported")
			return
		}
		if o.Fired == 0 && len(wt.err) == 0 {
			w.violation("refused", "%s failed with exit status %d although nothing is wrong: %s", what, o.Exit, tail(o.Stderr))
			return
		}
		w.violation("cause", "%s failed with exit status %d, naming neither %q nor %q: %s", what, o.Exit, wt.err, o.Errs, tail(o.Stderr))
		return
	}
	if len(wt.err) > 0 {
		w.violation("success", "%s reports success although it must fail with one of %q", what, wt.err)
		return
	}
	theSim.probe("success-judged")
	if o.Fired > 0 {
		theSim.probe("success-despite-fault")
	}
	judgeContent(what, b, o, ref, wt, w.violation)
}

// judgeContent judges what a build that reports success has written.
func judgeContent(what string, b *BuildStep, o, ref *outcome, wt *wanted, violation func(rule, format string, args ...any)) {
	// success: everything has to be there
	check := func(name string, body []byte, pg *Page, refBody []byte, haveRef bool) {
		if d := diffItems(wt.m.extract(body), pg.Items); d != "" {
			violation("content", "%s reports success, but %s is wrong: %s", what, name, d)
			return
		}
		if haveRef && !bytes.Equal(body, refBody) {
			violation("content", "%s reports success, but %s differs from a fresh build of the same files: %s", what, name, firstDiff(body, refBody))
		}
	}
	okRef := ref != nil && ref.Exit == 0
	if wt.out != nil {
		var rb []byte
		if okRef {
			rb = ref.Stdout
		}
		check("standard output", o.Stdout, wt.out, rb, okRef)
		return
	}
	for _, name := range sortedKeys(wt.pages) {
		body, ok := o.Tree[name]
		if !ok {
			violation("content", "%s reports success, but %s is missing", what, name)
			continue
		}
		var rb []byte
		if okRef {
			rb = ref.Tree[name]
		}
		check(name, body, wt.pages[name], rb, okRef)
	}
	if wt.index != nil {
		body, ok := o.Tree["search_index.json"]
		if !ok {
			violation("content", "%s reports success, but there is no search index", what)
		} else if d := diffIndex(body, wt.index); d != "" {
			violation("content", "%s reports success, but the search index is wrong: %s", what, d)
		} else if okRef && !bytes.Equal(body, ref.Tree["search_index.json"]) {
			violation("content", "%s reports success, but the search index differs from a fresh build of the same files: %s", what, firstDiff(body, ref.Tree["search_index.json"]))
		}
	}
	for _, name := range sortedKeys(o.Before) {
		if _, ours := wt.pages[name]; ours || name == "search_index.json" && b.Cmd.Search {
			continue
		}
		if !bytes.Equal(o.Before[name], o.Tree[name]) {
			violation("foreign", "%s changed %s, which is none of its pages", what, name)
		}
	}
	for _, name := range sortedKeys(o.Tree) {
		if _, was := o.Before[name]; was || wt.pages[name] != nil || name == "search_index.json" && b.Cmd.Search {
			continue
		}
		violation("foreign", "%s wrote %s, which is none of its pages", what, name)
	}
}

// diffIndex compares a search index with the model's.
func diffIndex(body []byte, want map[string]IdxDoc) string {
	var got map[string]struct {
		Location   string `json:"location"`
		Title      string `json:"title"`
		Text       string `json:"text"`
		Depth      int    `json:"depth"`
		SectionTag string `json:"section_tag"`
	}
	if err := json.Unmarshal(body, &got); err != nil {
		return "it does not parse: " + err.Error()
	}
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return "no entry for " + k
		}
		d := want[k]
		if g.Location != d.Location || g.SectionTag != d.SectionTag || g.Depth != d.Depth ||
			justWords(g.Title) != justWords(d.Title) || once(justWords(g.Text)) != once(d.Text) {
			return fmt.Sprintf("entry %s is %s %q %q depth %d in %s, expected %s %q %q depth %d in %s", k,
				g.Location, justWords(g.Title), justWords(g.Text), g.Depth, g.SectionTag, d.Location, d.Title, d.Text, d.Depth, d.SectionTag)
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return "an entry for " + k + ", which no section defines"
		}
	}
	return ""
}

var logTimes = regexp.MustCompile(`\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)|(elapsed|duration|took)="?[0-9.µnmsh]+"?|\bTMP\d+`)

// judgeSame compares runs of the same command on the same files.
func judgeSame(w *worker, steps []*BuildStep, outs []outcome) {
	first := map[string]int{}
	for i, b := range steps {
		k := b.refKey()
		j, ok := first[k]
		if !ok {
			first[k] = i
			continue
		}
		x, y := outs[j], outs[i]
		if x.Exit != y.Exit {
			w.violation("differs", "run %d and run %d of the same files end with exit status %d and %d", j, i, x.Exit, y.Exit)
			continue
		}
		if !bytes.Equal(x.Stdout, y.Stdout) {
			w.violation("differs", "run %d and run %d of the same files differ on standard output: %s", j, i, firstDiff(y.Stdout, x.Stdout))
		}
		ex, ey := logTimes.ReplaceAll(x.Stderr, nil), logTimes.ReplaceAll(y.Stderr, nil)
		if !bytes.Equal(ex, ey) {
			w.violation("differs", "run %d and run %d of the same files differ on standard error: %s", j, i, firstDiff(ey, ex))
		}
		for _, n := range sortedKeys(x.Tree) {
			if _, ok := x.Before[n]; ok && bytes.Equal(x.Before[n], x.Tree[n]) {
				continue
			}
			if !bytes.Equal(x.Tree[n], y.Tree[n]) {
				w.violation("differs", "run %d and run %d of the same files write different %s: %s", j, i, n, firstDiff(y.Tree[n], x.Tree[n]))
			}
		}
	}
}

// once drops repetitions: a reference that cannot be resolved reads as an error
// message, which may say the tag more than once.
func once(words string) string {
	var out []string
	for _, w := range strings.Fields(words) {
		if n := len(out); n > 0 && out[n-1] == w && strings.HasPrefix(w, "tm") {
			continue
		}
		out = append(out, w)
	}
	return strings.Join(out, " ")
}
