//go:build go1.22

package verifsim

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/vito/booklit"
	"github.com/vito/booklit/ast"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
	"github.com/vito/booklit/render"
	"github.com/vito/booklit/stages"
)

// Simulations of booklit used as a library, from several goroutines at once.

// LazySpec is one deferred piece of content.
type LazySpec struct {
	Block bool `json:"block,omitempty"`
	Fail  bool `json:"fail,omitempty"`
	Panic bool `json:"panic,omitempty"`
	Delay int  `json:"delay_ms,omitempty"`
	Inner int  `json:"inner"`           // index of an earlier lazy its content contains; -1: none
	Eager bool `json:"eager,omitempty"` // forces the inner one itself
}

// LazyOp is one use of a lazy.
type LazyOp struct {
	// force, html, text; strip, striptxt: StripAux and render; title: render as a
	// section title that is referred to; look: String, IsFlow, collecting, StripAux
	// (must not force)
	K    string `json:"k"`
	Wrap int    `json:"wrap,omitempty"`
	Lazy int    `json:"lazy"`
	Wait int    `json:"wait_ms,omitempty"`
}

type LazyPlan struct {
	Specs []LazySpec  `json:"specs"`
	Users [][]*LazyOp `json:"users"`
}

func init() {
	kinds["lazy"] = []func(w *worker) bool{phaseLazy}
	kinds["multi"] = []func(w *worker) bool{phaseMulti, phaseAlone}
}

type lazyState struct {
	runs     int
	begun    time.Duration
	finished bool
	asked    bool // somebody has needed it
	content  booklit.Content
	err      error
}

func phaseLazy(w *worker) bool {
	s := w.start()
	lp := w.plan.Lazies
	n := len(lp.Specs)
	lazies := make([]*booklit.Lazy, n)
	st := make([]*lazyState, n)
	var ask func(i int)
	ask = func(i int) {
		st[i].asked = true
		if sp := lp.Specs[i]; sp.Inner >= 0 && sp.Eager {
			ask(sp.Inner)
		}
	}
	for i := range lp.Specs {
		i := i
		sp := lp.Specs[i]
		st[i] = &lazyState{}
		fn := func() (booklit.Content, error) {
			x := st[i]
			raw(func() {
				x.runs++
				if x.runs > 1 {
					w.violation("again", "the function behind lazy %d runs a %s time", i, nth(x.runs))
				}
				if !x.asked {
					w.violation("early", "the function behind lazy %d runs although nobody needs it", i)
				}
				s.event("lazy", fmt.Sprintf("fn %d", i))
			})
			s.pause(time.Duration(sp.Delay) * time.Millisecond)
			var c booklit.Content = booklit.String(fmt.Sprintf("tl%dx%d", i, x.runs))
			var err error
			if sp.Inner >= 0 {
				if sp.Eager {
					var ic booklit.Content
					ic, err = lazies[sp.Inner].Force()
					if err == nil {
						c = booklit.Sequence{c, booklit.String(" "), ic}
					}
				} else {
					c = booklit.Sequence{c, booklit.String(" "), lazies[sp.Inner]}
				}
			}
			if sp.Fail {
				err = fmt.Errorf("lazyfailure%d.%d", i, x.runs)
			}
			if err != nil {
				c = nil
			}
			s.yield(-9)
			if sp.Panic {
				s.probe("lazy-panic")
				panic(lazyPanic)
			}
			x.content, x.err, x.finished = c, err, true
			return c, err
		}
		if sp.Block {
			lazies[i] = booklit.LazyBlock(fn)
		} else {
			lazies[i] = booklit.LazyFlow(fn)
		}
	}
	// dicey lazies are or contain one whose function panics. What becomes of
	// that is up to booklit, but the function must not run again.
	var dicey func(i int) bool
	dicey = func(i int) bool {
		sp := lp.Specs[i]
		return sp.Panic || sp.Inner >= 0 && dicey(sp.Inner)
	}
	// what rendering lazy i has to show, or the failure it has to report
	var words func(i int) (string, string)
	words = func(i int) (string, string) {
		sp := lp.Specs[i]
		own := fmt.Sprintf("tl%dx1", i)
		if sp.Inner >= 0 {
			ws, fail := words(sp.Inner)
			if sp.Eager && fail != "" {
				if sp.Fail {
					return "", fmt.Sprintf("lazyfailure%d.1", i)
				}
				return "", fail
			}
			if !sp.Fail {
				return own + " " + ws, fail
			}
		}
		if sp.Fail {
			return "", fmt.Sprintf("lazyfailure%d.1", i)
		}
		return own, ""
	}
	var deep func(i int)
	deep = func(i int) {
		ask(i)
		if sp := lp.Specs[i]; sp.Inner >= 0 && !sp.Fail {
			deep(sp.Inner)
		}
	}
	use := func(who string, op *LazyOp) {
		i := op.Lazy
		x, lz := st[i], lazies[i]
		switch op.K {
		case "look":
			if lz.IsFlow() == lp.Specs[i].Block {
				w.violation("flow", "lazy %d: IsFlow is %v", i, lz.IsFlow())
			}
			_ = lz.String()
			_ = booklit.StripAux(booklit.Sequence{lz, booklit.Aux{Content: lz}})
			sec := &booklit.Section{Title: booklit.String("x"), Body: booklit.Sequence{lz, booklit.Empty}}
			if err := sec.Visit(&stages.Collect{Section: sec}); err != nil {
				w.violation("look", "collecting a section with a lazy: %s", err)
			}
			_ = booklit.Append(booklit.String("x"), lz)
		case "force":
			raw(func() { ask(i) })
			c, err := lz.Force()
			raw(func() {
				if dicey(i) {
					if c != nil && !x.finished {
						w.violation("early", "%s: Force of lazy %d returned content without its function", who, i)
					}
					return
				}
				if !x.finished {
					w.violation("early", "%s: Force of lazy %d returned before its function had", who, i)
					return
				}
				if x.err == nil && err != nil || x.err != nil && err != x.err {
					w.violation("disagree", "%s: Force of lazy %d returned error %v, its function %v", who, i, err, x.err)
				}
				if err == nil && (c == nil || fmt.Sprintf("%#v", c) != fmt.Sprintf("%#v", x.content)) {
					w.violation("disagree", "%s: Force of lazy %d returned %#v, its function %#v", who, i, c, x.content)
				}
			})
		default:
			raw(func() { deep(i) })
			sec := &booklit.Section{Title: booklit.String("x"), Body: booklit.Sequence{booklit.String("<"), lz, booklit.String(">")}}
			times := 1 // how often it shows
			switch op.K {
			case "strip", "striptxt":
				if op.K == "striptxt" && (op.Wrap == 2 || op.Wrap == 6) {
					op = &LazyOp{K: op.K, Wrap: op.Wrap + 1} // no text templates for styles
				}
				sec.Body = booklit.StripAux(lazyWrap(op.Wrap, lz))
				if op.Wrap%lazyWraps >= 6 {
					times = 2
				}
			}
			if op.K == "title" {
				sec.SetTitle(lazyWrap(op.Wrap, lz), ast.Location{Line: 1, Col: 1}, "tag")
				sec.Body = booklit.Sequence{
					&booklit.Reference{Section: sec, TagName: "tag"}, booklit.String(" and "),
					booklit.Aux{Content: lz}, booklit.String(" and "), &booklit.Reference{Section: sec, TagName: "tag"}}
				if times = 4; op.Wrap%lazyWraps >= 6 {
					times = 7
				}
			} else {
				sec.SetTitle(booklit.String("title"), ast.Location{Line: 1, Col: 1}, "tag")
			}
			var e render.Engine
			if op.K == "html" || op.K == "strip" || op.K == "title" {
				e = render.NewHTMLEngine()
			} else {
				e = render.NewTextEngine("txt")
			}
			var buf bytes.Buffer
			err := e.RenderSection(&buf, sec)
			raw(func() {
				if dicey(i) {
					return
				}
				ws, fail := words(i)
				if fail != "" {
					if err == nil {
						w.violation("disagree", "%s: rendering lazy %d succeeds although its function fails with %s", who, i, fail)
					} else if !strings.Contains(err.Error(), fail) {
						w.violation("disagree", "%s: rendering lazy %d fails with %q, its function with %s", who, i, err, fail)
					}
					return
				}
				if err != nil {
					w.violation("disagree", "%s: rendering lazy %d fails with %q, its function does not", who, i, err)
					return
				}
				ws = strings.TrimSuffix(strings.Repeat(ws+" ", times), " ")
				if got := strings.Join(lazyTok.FindAllString(buf.String(), -1), " "); got != ws {
					w.violation("disagree", "%s: rendering lazy %d as %s shows %q, expected %q", who, i, op.K, got, ws)
				}
			})
		}
		s.probe("lazy-" + op.K)
	}
	using := map[int]int{} // users at work on each lazy
	var dones []*bool
	a := s.newActor("lib", map[string]string{})
	a.keep = true
	s.spawn(a, func() {
		for k, ops := range lp.Users {
			k, ops := k, ops
			done := new(bool)
			dones = append(dones, done)
			go func() {
				s.yield(-8)
				defer func() {
					if r := recover(); r != nil {
						raw(func() { w.violation("died", "user %d panicked: %v", k, r) })
					}
					*done = true
				}()
				for _, op := range ops {
					if op.Wait > 0 {
						s.sleep(time.Duration(op.Wait) * time.Millisecond)
					}
					if using[op.Lazy]++; using[op.Lazy] > 1 {
						s.probe("overlap")
					}
					func() {
						defer func() {
							if r := recover(); r != nil && (!dicey(op.Lazy) || op.K == "look") {
								panic(r)
							}
						}()
						use(fmt.Sprintf("user %d", k), op)
					}()
					using[op.Lazy]--
				}
			}()
		}
	})
	if !s.run(progressLimit, func() bool { return len(dones) == len(lp.Users) && allDone(dones) }) {
		w.violation("progress", "users of lazy content wait for ever")
	}
	anyPanic := false
	for _, sp := range lp.Specs {
		anyPanic = anyPanic || sp.Panic
	}
	for i, x := range st {
		if x.asked && x.runs != 1 && (x.runs > 0 || !anyPanic) {
			w.violation("again", "the function behind lazy %d was needed and ran %d times", i, x.runs)
		}
	}
	return false
}

const lazyPanic = "lazy function gives up"

const lazyWraps = 8

// lazyWrap puts a lazy into other content, in a place that is shown.
func lazyWrap(n int, lz *booklit.Lazy) booklit.Content {
	x := booklit.String("x")
	switch n % lazyWraps {
	case 0:
		return lz
	case 1:
		return booklit.Sequence{x, lz, booklit.Aux{Content: booklit.String("aux")}}
	case 2:
		return booklit.Styled{Style: booklit.StyleBold, Content: lz}
	case 3:
		return booklit.Paragraph{x, lz, x}
	case 4:
		return booklit.Preformatted{x, booklit.Sequence{x, lz}}
	case 5:
		return booklit.Append(x, lz)
	case 6:
		return booklit.Sequence{lz, x, booklit.Styled{Style: booklit.StyleItalic, Content: lz}}
	}
	return booklit.Sequence{lz, booklit.String(" "), booklit.Sequence{lz}}
}

func nth(n int) string {
	switch n {
	case 2:
		return "second"
	case 3:
		return "third"
	}
	return fmt.Sprintf("%dth", n)
}

func planLazy(r *prng, p *Plan) {
	p.Kind = "lazy"
	lp := &LazyPlan{}
	for i := 1 + r.n(4); i > 0; i-- {
		sp := LazySpec{Inner: -1, Block: r.p(0.3), Fail: r.p(0.25)}
		sp.Panic = r.p(0.08)
		if r.p(0.4) {
			sp.Delay = 1 + r.n(pick(r, []int{20, 20, 20, 3000, 200000}))
		}
		if k := len(lp.Specs); k > 0 && r.p(0.5) {
			sp.Inner = r.n(k)
			sp.Eager = r.p(0.5)
		}
		lp.Specs = append(lp.Specs, sp)
	}
	for u := 1 + r.n(5); u > 0; u-- {
		var ops []*LazyOp
		for k := 1 + r.n(4); k > 0; k-- {
			op := &LazyOp{K: pick(r, []string{"force", "force", "html", "text", "look", "strip", "striptxt", "title"}), Lazy: r.n(len(lp.Specs)), Wrap: r.n(lazyWraps)}
			if r.p(0.3) {
				op.Wait = r.n(20)
			}
			ops = append(ops, op)
		}
		lp.Users = append(lp.Users, ops)
	}
	p.Lazies = lp
	p.Sched.Horizon = pick(r, []int{50, 200, 1000})
}

// ------------------------------------------------------------- several at once

// Job is one user of the library: it loads a document, renders it with an engine
// of its own and writes the pages to a directory of its own.
type Job struct {
	World  *World `json:"world"`
	State  State  `json:"state"`
	Tmpls  bool   `json:"tmpls,omitempty"`
	Text   string `json:"text,omitempty"`
	Shared bool   `json:"shared,omitempty"` // uses the processor all others share
	Same   int    `json:"same"`             // works on the files of that job (its world and state); -1: its own
	Own    []int  `json:"own,omitempty"`    // with Same: templates of its own for the documents of the other
	Search bool   `json:"search,omitempty"`
	Wait   int    `json:"wait_ms,omitempty"`
	Again  int    `json:"again,omitempty"` // does it all once more with the same processor and engine
}

type jobOut struct {
	err   []string
	tree  []map[string][]byte
	panic string
}

func (j *Job) dir(k int, jobs []*Job) string {
	if j.Same >= 0 {
		k = j.Same
	}
	return fmt.Sprintf("job%d", k)
}

// templates is the directory of the job's templates.
func (j *Job) templates(k int, jobs []*Job) string {
	if j.Own != nil {
		return fmt.Sprintf("own%d/templates", k)
	}
	return filepath.Join(j.dir(k, jobs), "templates")
}

func phaseMulti(w *worker) bool {
	s := w.start()
	jobs := w.plan.Multi
	n := len(jobs)
	for k, j := range jobs {
		wd, st := j.World, j.State
		if j.Own != nil {
			wd, st = jobs[j.Same].World, jobs[j.Same].State.clone()
			st.T = j.Own
		}
		if wd != nil {
			ed := newEditor(s, wd, st)
			dir := filepath.Join(w.root, j.templates(k, jobs))
			raw(func() {
				must(os.MkdirAll(dir, 0o755))
				must(os.Chdir(filepath.Dir(dir)))
			})
			ed.init()
			raw(func() { must(os.Chdir(w.root)) })
		}
	}
	s.fs.faults = w.plan.Faults
	var all []int
	for k := range jobs {
		all = append(all, k)
	}
	outs := runJobs(w, s, all, "out")
	if outs == nil {
		return false
	}
	first := map[string]map[string][]byte{}
	for k, j := range jobs {
		o := &outs[k]
		jj := j
		if j.Same >= 0 {
			jj = jobs[j.Same]
		}
		st := jj.State.clone()
		if j.Own != nil {
			st.T = append([]int{}, j.Own...)
		}
		if !j.Tmpls {
			for i := range st.T {
				st.T[i] = -1
			}
		}
		b := &BuildStep{State: st, Cmd: CmdPlan{Templates: j.Tmpls, Out: true, Search: j.Search, Text: j.Text}}
		wt := wantBuild(jj.World, b)
		what := fmt.Sprintf("job %d of %d", k, n)
		if o.panic != "" && !(len(wt.err) > 0 && strings.HasPrefix(wt.err[0], "panicking")) {
			w.violation("died", "%s panicked: %s", what, o.panic)
			continue
		}
		for round, e := range o.err {
			if len(wt.err) > 0 {
				s.probe("defective")
				if e == "" {
					w.violation("success", "%s succeeds although it must fail with one of %q", what, wt.err)
				} else if !names([]byte(e), wt.err) {
					w.violation("cause", "%s fails with %q, which says none of %q", what, e, wt.err)
				}
				continue
			}
			if e != "" {
				w.violation("refused", "%s fails although nothing is wrong: %s", what, e)
				continue
			}
			tree := o.tree[round]
			for _, name := range sortedKeys(wt.pages) {
				if d := diffItems(wt.m.extract(tree[name]), wt.pages[name].Items); d != "" {
					w.violation("content", "%s, pass %d: %s is wrong: %s", what, round, name, d)
				}
			}
			if len(tree) != len(wt.pages)+btoi(j.Search) {
				w.violation("content", "%s wrote %d files, expected %d", what, len(tree), len(wt.pages)+btoi(j.Search))
			}
			if wt.index != nil {
				if d := diffIndex(tree["search_index.json"], wt.index); d != "" {
					w.violation("content", "%s: the search index is wrong: %s", what, d)
				}
			}
			key := j.dir(k, jobs) + j.Text + fmt.Sprint(j.Tmpls, j.Own)
			if f, ok := first[key]; ok {
				for _, name := range sortedKeys(wt.pages) {
					if !bytes.Equal(f[name], tree[name]) {
						w.violation("differs", "%s: %s differs from what another pass over the same files wrote: %s", what, name, firstDiff(tree[name], f[name]))
					}
				}
			} else {
				first[key] = tree
			}
		}
	}
	if w.plan.Race {
		w.put("race", raceErrs())
		return false
	}
	if len(w.c.Result.Violations) > 0 {
		return false
	}
	var ms []among
	for i := 0; i < min(2, n); i++ {
		k := (int(w.plan.SimSeed%uint64(n)) + i) % n
		if o := &outs[k]; o.panic == "" && len(o.err) > 0 {
			ms = append(ms, among{k, o.err[0], o.tree[0]})
		}
	}
	w.put("among", ms)
	return len(ms) > 0
}

// among is what a job got among the others.
type among struct {
	Job  int
	Err  string
	Tree map[string][]byte
}

// phaseAlone has one of the jobs done once more, in a process of its own.
func phaseAlone(w *worker) bool {
	var ms []among
	w.get("among", &ms)
	m := ms[w.phase-1]
	p := *w.plan
	p.Sched, p.Short = Sched{Policy: "seq", Seed: p.Seed + 1}, 0
	w.plan = &p
	s := w.start()
	outs := runJobs(w, s, []int{m.Job}, "alone")
	if outs == nil || len(outs[m.Job].err) == 0 {
		return false
	}
	s.probe("compared-alone")
	o := &outs[m.Job]
	what := fmt.Sprintf("job %d of %d", m.Job, len(w.plan.Multi))
	if o.panic != "" || o.err[0] != m.Err {
		w.violation("alone", "%s fails with %q among the others, and with %q alone%s", what, m.Err, o.err[0], o.panic)
		return false
	}
	for _, name := range sortedKeys(m.Tree) {
		if !bytes.Equal(o.tree[0][name], m.Tree[name]) {
			w.violation("alone", "%s writes another %s alone: %s", what, name, firstDiff(m.Tree[name], o.tree[0][name]))
		}
	}
	if len(m.Tree) != len(o.tree[0]) {
		w.violation("alone", "%s writes %d files among the others and %d alone", what, len(m.Tree), len(o.tree[0]))
	}
	return w.phase < len(ms)
}

// runJobs has the given jobs done side by side.
func runJobs(w *worker, s *sim, ks []int, name string) []jobOut {
	jobs := w.plan.Multi
	working := 0
	shared := &load.Processor{}
	// everyone is given the same plugins, in a slice that happens to have room
	factories := append(make([]booklit.PluginFactory, 0, 8), baselit.NewPlugin)
	outs := make([]jobOut, len(jobs))
	var dones []*bool
	a := s.newActor("lib", map[string]string{})
	a.keep = true
	s.spawn(a, func() {
		for _, k := range ks {
			k, j, o := k, jobs[k], &outs[k]
			done := new(bool)
			dones = append(dones, done)
			go func() {
				s.yield(-8)
				defer func() {
					if r := recover(); r != nil {
						o.panic = fmt.Sprint(r)
					}
					*done = true
				}()
				if j.Wait > 0 {
					s.sleep(time.Duration(j.Wait) * time.Millisecond)
				}
				proc := shared
				if !j.Shared {
					proc = &load.Processor{}
				}
				if working++; working > 1 {
					s.probe("overlap")
				}
				defer func() { working-- }()
				var engine render.Engine
				var loader interface{ LoadTemplates(string) error }
				if j.Text != "" {
					e := render.NewTextEngine(j.Text)
					engine, loader = e, e
				} else {
					e := render.NewHTMLEngine()
					engine, loader = e, e
				}
				base := j.dir(k, jobs)
				for round := 0; round <= j.Again; round++ {
					err := func() error {
						if j.Tmpls {
							if err := loader.LoadTemplates(j.templates(k, jobs)); err != nil {
								return err
							}
						}
						sec, err := proc.LoadFile(filepath.Join(base, "src/root.lit"), factories)
						if err != nil {
							return err
						}
						out := fmt.Sprintf("%s%d.%d", name, k, round)
						if err := os.MkdirAll(out, 0o755); err != nil {
							return err
						}
						wr := render.Writer{Engine: engine, Destination: out}
						if err := wr.WriteSection(sec); err != nil {
							return err
						}
						if j.Search {
							return wr.WriteSearchIndex(sec, "search_index.json")
						}
						return nil
					}()
					msg := ""
					if err != nil {
						var pe booklit.PrettyError
						var b bytes.Buffer
						if errors.As(err, &pe) {
							pe.PrettyPrint(&b)
						}
						msg = "E " + err.Error() + "\n" + b.String()
					}
					o.err = append(o.err, msg)
				}
			}()
		}
	})
	if !s.run(progressLimit, func() bool { return len(dones) == len(ks) && allDone(dones) }) {
		w.violation("progress", "jobs working side by side wait for ever (%s)", s.blockedList())
		return nil
	}
	for _, k := range ks {
		o := &outs[k]
		for round := range o.err {
			o.tree = append(o.tree, readTree(fmt.Sprintf("%s%d.%d", name, k, round)))
		}
	}
	return outs
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func planMulti(r *prng, p *Plan) {
	p.Kind = "multi"
	n := 2 + r.n(4)
	for k := 0; k < n; k++ {
		j := &Job{Same: -1, Shared: r.p(0.5), Search: r.p(0.3)}
		if k > 0 && r.p(0.4) {
			j.Same = r.n(k)
			for p.Multi[j.Same].Same >= 0 {
				j.Same = p.Multi[j.Same].Same
			}
			of := p.Multi[j.Same]
			j.Tmpls, j.Text = of.Tmpls, of.Text
			if !of.World.Text && r.p(0.3) {
				j.Tmpls = false
			}
			if styled(of.World) || of.World.Chroma {
				j.Tmpls = of.Tmpls
			}
			if j.Tmpls && r.p(0.5) {
				for i, t := range of.World.Tmpls {
					v := of.State.T[i]
					if t.Name != "fancy" && !(of.World.Text && (t.Name == "bold" || t.Name == "section")) && r.p(0.5) {
						v = -1 - v
					}
					j.Own = append(j.Own, v)
				}
			}
		} else {
			o := GenOpts{Files: 3, Variants: 1, Secs: 4, Blks: 3, Tmpls: r.p(0.5), Plugin: r.p(0.5), Funcs: lightFuncs, Partials: true}
			if r.p(0.2) {
				o.Text = true
			}
			if r.p(0.25) && !o.Text {
				o.Variants, o.Breaks, o.BreakP = 2, []string{"undef", "badref", "arity", "twice", "perr", "badrow", "amb", "miss", "parse"}, 0.7
			}
			j.World = genWorld(r, o)
			j.State = j.World.firstState(r)
			if o.Variants > 1 {
				j.State = randomState(r, j.World, j.State)
			}
			j.Tmpls = o.Tmpls
			if o.Text {
				j.Text = pick(r, []string{"md", "txt"})
			}
		}
		if r.p(0.3) {
			j.Again = 1
		}
		if r.p(0.2) {
			j.Wait = r.n(5)
		}
		p.Multi = append(p.Multi, j)
	}
	if r.p(0.3) {
		p.LazyMS = r.n(20)
	}
	if r.p(0.3) {
		p.Short = pick(r, []int{3, 7, 64, 512})
	}
	if r.p(0.4) {
		for k := 1 + r.n(3); k > 0; k-- {
			p.Faults = append(p.Faults, &Fault{Actor: "lib", Op: pick(r, []string{"read", "open", "stat", "write", "close", "create"}),
				Path: pick(r, []string{"job", ".lit", ".tmpl", "out"}), Nth: 1 + r.n(30), Mode: "delay", Delay: 1 + r.n(pick(r, []int{50, 50, 20000}))})
		}
	}
}

// styled reports whether some section needs a template of the user's.
func styled(w *World) bool {
	var in func(s *Sec) bool
	in = func(s *Sec) bool {
		if s.Style != "" {
			return true
		}
		for _, k := range s.Kids {
			if k.Sec != nil && in(k.Sec) {
				return true
			}
		}
		return false
	}
	for _, f := range w.Files {
		for _, v := range f.Vars {
			if in(v) {
				return true
			}
		}
	}
	return false
}

func init() {
	plans["C09"] = planHandles
	plans["C10"] = planLazy
	plans["C12"] = planMulti
}

// planHandles: a server that fails in every way it can.
func planHandles(r *prng, p *Plan) {
	switch r.n(4) {
	case 0:
		planFresh(r, p)
	case 1:
		planCause(r, p)
	default:
		planRecover(r, p)
	}
	for _, rd := range p.Rounds {
		if r.p(0.3) {
			for _, c := range rd.Clients {
				q := pick(r, c.Reqs)
				q.Mode = pick(r, []string{"abort", "cut", "slow", "leave"})
				q.At, q.Pause = 1+r.n(400), 1+r.n(20)
			}
		}
	}
}
