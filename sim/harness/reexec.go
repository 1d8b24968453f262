//go:build go1.22

package verifsim

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/vito/booklit/booklitcmd"
)

// Building and running a booklit with plugins in it.

// ChildPlan is how a child process behaves.
type ChildPlan struct {
	Delay  int    `json:"delay_ms,omitempty"`
	Exit   int    `json:"exit,omitempty"`
	Signal int    `json:"signal,omitempty"`
	Start  string `json:"start,omitempty"` // fails to start, with this error
	Says   string `json:"says,omitempty"`  // on standard error
	Says2  string `json:"says2,omitempty"` // on standard output
	Real   bool   `json:"real,omitempty"`  // run: booklit itself
	NoBin  bool   `json:"no_bin,omitempty"`
	Serve  bool   `json:"serve,omitempty"` // goes on until it is interrupted
	Grace  int    `json:"grace_ms,omitempty"`
	Last   int    `json:"last,omitempty"` // exit status when interrupted, with a grace
}

// SignalPlan is a user, or a supervisor, who wants booklit to end.
type SignalPlan struct {
	Sig   int  `json:"sig"`
	At    int  `json:"at_ms"`
	Times int  `json:"times"`           // one second apart
	Group bool `json:"group,omitempty"` // as a terminal does: its children get it, too
	First bool `json:"first,omitempty"` // the children get it first
}

type ReexecPlan struct {
	Plugins []string    `json:"plugins"`
	Install ChildPlan   `json:"install"`
	Run     ChildPlan   `json:"run"`
	Old     int         `json:"old,omitempty"` // left-over temporary directories of others
	Procs   int         `json:"procs"`
	State   State       `json:"state"`
	Env     [][2]string `json:"env,omitempty"`
	Signal  *SignalPlan `json:"signal,omitempty"` // to the first of the processes
}

func init() {
	kinds["reexec"] = []func(w *worker) bool{phaseReexec}
	plans["C13"] = planReexec
}

type reexecRun struct {
	installed, ran, ended int
	bin                   string
	failAt                string
	kids                  []*child
	sent                  bool // a signal
}

func phaseReexec(w *worker) bool {
	s := w.start()
	p := w.plan
	rp := p.Reexec
	wd := p.World
	ed := newEditor(s, wd, rp.State)
	raw(func() {
		must(os.MkdirAll("templates", 0o755))
		for i := 0; i < rp.Old; i++ {
			d := filepath.Join("tmp", fmt.Sprintf("booklit-reexec%d", 100+i))
			must(os.MkdirAll(d, 0o755))
			must(os.WriteFile(filepath.Join(d, "main.go"), []byte("somebody else's"), 0o644))
		}
	})
	ed.init()
	before := readTree("tmp")
	p.Cmd.Plugins = rp.Plugins
	args := p.Cmd.args(wd)
	runs := map[*actor]*reexecRun{}
	fault := false
	s.fs.onFault = func(int) { fault = true }
	s.fs.faults = p.Faults
	child := func(cp ChildPlan, work func()) func() {
		return func() {
			me := s.me()
			if cp.Delay > 0 {
				s.sleep(time.Duration(cp.Delay) * time.Millisecond)
			}
			if cp.Says != "" {
				s.output(me, true, []byte(cp.Says+"\n"))
			}
			if cp.Says2 != "" {
				s.output(me, false, []byte(cp.Says2+"\n"))
			}
			if cp.Signal != 0 {
				me.signal = cp.Signal
				s.exit(128 + cp.Signal)
			}
			if cp.Exit != 0 {
				s.exit(cp.Exit)
			}
			if cp.Serve {
				key := new(byte)
				until := syscall.Signal(0)
				if cp.Grace > 0 {
					me.handlers.fn = func(sig syscall.Signal) {
						until = sig
						s.wake(keyOf(key))
					}
				}
				for until == 0 {
					s.block(keyOf(key))
				}
				s.sleep(time.Duration(cp.Grace) * time.Millisecond)
				s.exit(cp.Last)
			}
			work()
			s.exit(0)
		}
	}
	s.exe.start = func(parent *actor, c *exec.Cmd) (*child_, error) {
		r := runs[parent]
		if r == nil {
			w.violation("again", "the program with the plugins in it starts %q itself", c.Args)
			return nil, os.ErrInvalid
		}
		env := envMap(c.Env)
		if c.Env == nil {
			env = parent.env
		}
		if len(c.Args) > 0 && c.Args[0] == "go" {
			r.installed++
			if r.installed > 1 || r.ran > 0 {
				w.violation("again", "the program is built more than once")
			}
			if len(c.Args) != 3 || c.Args[1] != "install" && c.Args[1] != "build" {
				w.violation("command", "go is called as %q", c.Args)
			}
			src := c.Args[len(c.Args)-1]
			checkMain(w, src, rp.Plugins)
			r.bin = filepath.Join(env["GOBIN"], "main")
			if rel, in := s.fs.inside(r.bin); !in || !strings.HasPrefix(rel, "tmp/") || before[strings.TrimPrefix(filepath.Dir(rel), "tmp/")+"/main.go"] != nil {
				w.violation("command", "the program is to be installed as %s", r.bin)
				return nil, os.ErrInvalid
			}
			checkEnv(w, "go install", parent.env, env, "GOBIN")
			if rp.Install.Start != "" {
				r.failAt = "install"
				return nil, &exec.Error{Name: "go", Err: errnos[rp.Install.Start]}
			}
			if rp.Install.Exit != 0 || rp.Install.Signal != 0 {
				r.failAt = "install"
			}
			return r.launch(s, "go", c, child(rp.Install, func() {
				if !rp.Install.NoBin {
					raw(func() {
						if err := os.WriteFile(r.bin, []byte("#!binary"), 0o755); err != nil {
							w.violation("command", "the directory the program is to be installed in does not exist")
						}
					})
				}
			})), nil
		}
		r.ran++
		if r.ran > 1 {
			w.violation("again", "the program is run more than once")
		}
		if r.installed == 0 || r.failAt != "" {
			w.violation("command", "%q is run although it was not built", c.Args)
		}
		if c.Path != r.bin {
			w.violation("command", "%s is run, but %s was built", c.Path, r.bin)
		}
		if !reflect.DeepEqual(c.Args[1:], args[1:]) {
			w.violation("command", "the program with the plugins is called with %q instead of %q", c.Args[1:], args[1:])
		}
		checkEnv(w, "the program", parent.env, env, "BOOKLIT_REEXEC")
		if c.Dir != "" {
			w.violation("command", "the program with the plugins is run in %s", c.Dir)
		}
		if env["BOOKLIT_REEXEC"] == "" {
			w.violation("command", "the program is not told that it already has the plugins")
		}
		gone := false
		raw(func() { _, err := os.Stat(r.bin); gone = err != nil })
		if gone {
			if !rp.Install.NoBin {
				w.violation("command", "%s is run after it was removed", r.bin)
			}
			r.failAt = "start"
			return nil, &exec.Error{Name: c.Path, Err: errnos["ENOENT"]}
		}
		if rp.Run.Start != "" {
			r.failAt = "start"
			return nil, &exec.Error{Name: c.Path, Err: errnos[rp.Run.Start]}
		}
		return r.launch(s, "plugged", c, child(rp.Run, func() {
			if rp.Run.Real {
				os.Args = append([]string{c.Path}, c.Args[1:]...)
				booklitcmd.Main()
			}
		})), nil
	}
	var parents []*actor
	for i := 0; i < rp.Procs; i++ {
		a := s.command("booklit", args)
		for _, kv := range rp.Env {
			a.env[kv[0]] = kv[1]
		}
		runs[a] = &reexecRun{}
		parents = append(parents, a)
	}
	if sp := rp.Signal; sp != nil {
		send := func() {
			a := parents[0]
			r := runs[a]
			if a.exited {
				return
			}
			r.sent = true
			s.stats.Faults[fmt.Sprintf("signal:%d", sp.Sig)]++
			sig := syscall.Signal(sp.Sig)
			if !sp.First {
				s.signal(a, sig)
			}
			for _, k := range r.kids {
				if sp.Group && !k.done {
					s.signal(k.a, sig)
				}
			}
			if sp.First {
				s.signal(a, sig)
			}
		}
		s.fs.onSignal = func(a *actor) {
			if a == parents[0] {
				send()
			}
		}
		s.spawn(s.newActor("terminal", nil), func() {
			for i := 0; i < sp.Times; i++ {
				s.sleep(time.Duration(sp.At) * time.Millisecond)
				send()
				if i == 0 {
					sp.At = 1000
				}
			}
		})
	}
	if !s.run(progressLimit, func() bool {
		for _, a := range parents {
			if !a.exited {
				return false
			}
		}
		return true
	}) {
		w.violation("hang", "booklit waits for ever for its children (%s)", s.blockedList())
		return false
	}
	b := &BuildStep{State: rp.State, Cmd: p.Cmd}
	wt := wantBuild(wd, b)
	for i, a := range parents {
		r := runs[a]
		what := fmt.Sprintf("booklit %s (%d of %d)", strings.Join(args[1:], " "), i+1, len(parents))
		stderr := ansi.ReplaceAllString(string(a.stderr), "")
		if a.panicked != "" {
			w.violation("died", "%s panicked: %s", what, a.panicked)
			continue
		}
		s.probe("judged")
		if r.sent {
			s.probe("signalled")
			var last *child_
			for _, k := range r.kids {
				last = k
				if !k.done && rp.Signal.Sig != 9 {
					w.violation("orphan", "%s ends and leaves a child of its own running", what)
				}
			}
			over := r.ran == 1 && last != nil && last.done && r.failAt == ""
			switch {
			case a.exitCode == 0 && (!over || !last.ws.Exited() || last.ws.ExitStatus() != 0):
				w.violation("success", "%s reports success although it was interrupted", what)
			case over && last.ws.Exited() && last.ws.ExitStatus() != 0 && a.signal == 0 && a.exitCode != last.ws.ExitStatus():
				w.violation("status", "%s ends with status %d, the program with the plugins with %d", what, a.exitCode, last.ws.ExitStatus())
			}
			continue
		}
		fails := func(why string, marks ...string) {
			if a.exitCode == 0 {
				w.violation("success", "%s reports success although %s", what, why)
			} else if len(marks) > 0 && !names([]byte(stderr), marks) {
				w.violation("cause", "%s fails (%s) without saying %q: %s", what, why, marks, tail([]byte(stderr)))
			}
		}
		said := func(cp ChildPlan, who string) {
			if cp.Says != "" && strings.Count(stderr, cp.Says) < 1 {
				w.violation("output", "%s: what %s says on standard error is lost: %s", what, who, cp.Says)
			}
			if cp.Says2 != "" && strings.Count(string(a.stdout), cp.Says2) != 1 {
				w.violation("output", "%s: what %s says on standard output is lost or doubled: %s", what, who, cp.Says2)
			}
		}
		ip, cp := rp.Install, rp.Run
		switch {
		case fault && r.ran == 0 && r.failAt == "":
			fails("an I/O error struck before the program was built or run", errTexts...)
		case r.failAt == "install" && ip.Start != "":
			fails("go cannot be started", errnos[ip.Start].Error())
		case r.failAt == "install":
			said(ip, "go")
			fails("the program cannot be built", "build failed", "exit status", "signal")
		case r.failAt == "start":
			fails("the program cannot be started", "no such file", "permission denied", "exec format", "memory", "unavailable")
		case r.ran == 0:
			w.violation("command", "%s ends with status %d without running the program with the plugins: %s", what, a.exitCode, tail(a.stderr))
		case cp.Signal != 0:
			said(cp, "the program")
			fails(fmt.Sprintf("the program was ended by signal %d", cp.Signal))
		case !cp.Real || cp.Exit != 0:
			said(cp, "the program")
			if a.exitCode != cp.Exit {
				w.violation("status", "%s ends with status %d, the program with the plugins with %d", what, a.exitCode, cp.Exit)
			}
		default:
			said(cp, "the program")
			if fault {
				break
			}
			if len(wt.err) > 0 {
				fails("the documents are broken", wt.err...)
				break
			}
			if a.exitCode != 0 {
				w.violation("refused", "%s fails with status %d although nothing is wrong: %s", what, a.exitCode, tail(a.stderr))
				break
			}
			if wt.out != nil {
				if d := diffItems(wt.m.extract(a.stdout), wt.out.Items); d != "" {
					w.violation("content", "%s: standard output is wrong: %s", what, d)
				}
				break
			}
			tree := readTree("out")
			for _, name := range sortedKeys(wt.pages) {
				if d := diffItems(wt.m.extract(tree[name]), wt.pages[name].Items); d != "" {
					w.violation("content", "%s: %s is wrong: %s", what, name, d)
				}
			}
		}
	}
	// nothing of it stays behind, and nobody else's is touched
	cleanFault := rp.Signal != nil && rp.Signal.Sig == 9
	for _, f := range p.Faults {
		if f.fired > 0 && (f.Op == "removeall" || f.Op == "any") {
			cleanFault = true
		}
	}
	after := readTree("tmp")
	var dirs []string
	raw(func() {
		es, _ := os.ReadDir("tmp")
		for _, e := range es {
			dirs = append(dirs, e.Name())
		}
	})
	if len(dirs) != rp.Old && !cleanFault {
		w.violation("leftover", "temporary files are left behind: %s", strings.Join(dirs, " "))
	}
	for _, f := range sortedKeys(before) {
		if after[f] == nil {
			w.violation("foreign", "%s, somebody else's temporary file, is gone", f)
		}
	}
	return false
}

func (r *reexecRun) launch(s *sim, name string, c *exec.Cmd, fn func()) *child {
	k := s.exe.launch(name, c, fn)
	r.kids = append(r.kids, k)
	return k
}

type child_ = child

func envMap(env []string) map[string]string {
	m := map[string]string{}
	for _, kv := range env {
		if i := strings.IndexByte(kv, '='); i > 0 {
			m[kv[:i]] = kv[i+1:]
		}
	}
	return m
}

func checkEnv(w *worker, who string, want, got map[string]string, extra string) {
	for _, k := range sortedKeys(want) {
		if k != extra && got[k] != want[k] {
			w.violation("environment", "%s is run with %s=%q instead of %q", who, k, got[k], want[k])
		}
	}
	if who != "the program" {
		return // go may need to be told things
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok && !strings.HasPrefix(k, "BOOKLIT") {
			w.violation("environment", "%s is run with %s=%q, which is not set for booklit", who, k, got[k])
		}
	}
}

// checkMain looks at the program that is to be built.
func checkMain(w *worker, path string, plugins []string) {
	var b []byte
	var err error
	raw(func() { b, err = os.ReadFile(path) })
	if err != nil {
		w.violation("command", "the program to be built cannot be read: %s", err)
		return
	}
	f, err := parser.ParseFile(token.NewFileSet(), path, b, 0)
	if err != nil {
		w.violation("command", "the program to be built does not parse: %s", err)
		return
	}
	imports := map[string]string{}
	for _, im := range f.Imports {
		n := ""
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[strings.Trim(im.Path.Value, `"`)] = n
	}
	want := map[string]bool{}
	for _, p := range plugins {
		want[p] = true
		if n, ok := imports[p]; !ok || n != "_" {
			w.violation("command", "the program to be built does not import the plugin %s", p)
		}
	}
	calls := false
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if sel, ok := c.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Main" {
				calls = true
			}
		}
		return true
	})
	if _, ok := imports["github.com/vito/booklit/booklitcmd"]; !ok || !calls || f.Name.Name != "main" {
		w.violation("command", "the program to be built is not booklit")
	}
	var more []string
	for p := range imports {
		if !want[p] && p != "github.com/vito/booklit/booklitcmd" {
			more = append(more, p)
		}
	}
	sort.Strings(more)
	_ = more
}

func planReexec(r *prng, p *Plan) {
	p.Kind = "reexec"
	o := GenOpts{Files: 2, Variants: 1, Secs: 2, Blks: 2, Tmpls: r.p(0.3), Plugin: true, Funcs: lightFuncs, Partials: true,
		Root: pick(r, []string{"", "", "src/my root.lit", "src/the  document.lit", "src/-x.lit"})}
	if r.p(0.3) {
		o.Variants, o.Breaks, o.BreakP = 2, allBreaks, 0.8
	}
	p.World = genWorld(r, o)
	rp := &ReexecPlan{State: p.World.firstState(r), Procs: 1}
	if o.Variants > 1 {
		rp.State = randomState(r, p.World, rp.State)
	}
	p.Cmd = CmdPlan{Templates: o.Tmpls, Out: r.p(0.7), Debug: r.p(0.2)}
	if p.Cmd.Out {
		p.Cmd.Search = r.p(0.4)
	}
	for i := r.n(3); i > 0; i-- {
		// arguments that have to be passed on as they are, but change nothing
		p.Cmd.Extra = append(p.Cmd.Extra, pick(r, [][]string{{"--section-tag", ""}, {"--section-path="}, {"--serve", "0"}, {"-s", "0"},
			{"--slow-invoke-threshold", "7s"}, {"two words"}, {""}, {"tab\tand\nline"}, {"üñí"}})...)
	}
	names := []string{"example.com/plug", "example.com/a/b/plugin", "github.com/vito/booklit/chroma/plugin"}
	for i := 1 + r.n(2); i > 0; i-- {
		rp.Plugins = append(rp.Plugins, names[(i+r.n(2))%3])
	}
	if len(rp.Plugins) == 2 && rp.Plugins[0] == rp.Plugins[1] {
		rp.Plugins = rp.Plugins[:1]
	}
	rp.Install = ChildPlan{Delay: r.n(3000)}
	rp.Run = ChildPlan{Real: true, Delay: r.n(50)}
	if r.p(0.2) {
		// caches are cold, and documents large
		rp.Install.Delay, rp.Run.Delay = r.n(600000), r.n(600000)
	}
	noise := func(cp *ChildPlan, who string) {
		if r.p(0.6) {
			cp.Says = "noise from " + who
		}
		if r.p(0.3) {
			cp.Says2 = "chatter from " + who
		}
	}
	if r.p(0.3) {
		noise(&rp.Install, "go")
	}
	switch r.n(12) {
	case 8, 9:
		rp.Signal = &SignalPlan{Sig: pick(r, []int{2, 2, 2, 15, 15, 9}), At: r.n(rp.Install.Delay+300) * min(r.n(4), 1), Times: 1 + r.n(2)*r.n(3), Group: r.p(0.5), First: r.p(0.3)}
		if rp.Signal.Sig == 15 {
			rp.Signal.Group = r.p(0.2)
		}
		if r.p(0.5) {
			// as --serve does
			rp.Run = ChildPlan{Delay: r.n(50), Serve: true}
			rp.Signal.Times = 10
			if r.p(0.4) {
				rp.Run.Grace, rp.Run.Last = 1+r.n(3000), pick(r, []int{0, 0, 1, 3, 130})
			}
		}
		if r.p(0.3) {
			p.Faults = append(p.Faults, &Fault{Actor: "booklit", Op: "any", Path: "tmp/booklit-reexec", Nth: 1 + r.n(6), Mode: "signal"})
		}
	case 0:
		rp.Install.Exit = pick(r, []int{1, 2, 127})
		noise(&rp.Install, "go")
	case 1:
		rp.Install.Signal = pick(r, []int{9, 11, 15})
	case 2:
		rp.Install.Start = pick(r, []string{"ENOENT", "EACCES", "ENOMEM"})
	case 3:
		rp.Install.NoBin = true
	case 4:
		rp.Run.Real = false
		rp.Run.Exit = pick(r, []int{0, 1, 2, 3, 42, 255})
		noise(&rp.Run, "program")
	case 5:
		rp.Run.Real = false
		rp.Run.Signal = pick(r, []int{2, 6, 9, 11, 15})
		noise(&rp.Run, "program")
	case 6:
		rp.Run.Start = pick(r, []string{"EACCES", "ENOMEM", "ENOENT"})
	case 7:
		p.Faults = append(p.Faults, &Fault{Actor: "booklit", Op: pick(r, []string{"mkdir", "create", "write", "close", "removeall", "write"}),
			Path: "tmp/booklit-reexec", Nth: 1, Count: pick(r, []int{0, -1}), Mode: pick(r, []string{"err", "err", "short"}), Err: pick(r, []string{"ENOSPC", "EIO", "EACCES"}), Limit: r.n(50)})
	}
	if r.p(0.3) {
		rp.Old = 1 + r.n(2)
	}
	if r.p(0.2) && !rp.Run.Serve {
		rp.Procs = 2
		p.Cmd.Out, p.Cmd.Search = false, false
	}
	for _, kv := range [][2]string{{"HOME", "/home/someone"}, {"GOFLAGS", "-mod=mod"}, {"LANG", "C=x"}, {"GOBIN", "/home/someone/bin"},
		{"BOOKLIT_REEXEC", ""}, {"EMPTY", ""}, {"TEXT", "two words\nand more"}, {"TMP_UNRELATED", "tmp"}} {
		if r.p(0.4) {
			rp.Env = append(rp.Env, kv)
		}
	}
	p.Reexec = rp
}
