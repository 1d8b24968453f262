//go:build go1.22

package verifsim

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"
)

// A soak puts a server through the same cycle of edits, failures and requests
// again and again. The files are the same at the end of every cycle, so what the
// server keeps has to be, too.

func init() {
	plans["C15"] = planSoak
	kinds["soak"] = []func(w *worker) bool{phaseSoak}
}

const (
	soakWarm    = 4 // cycles before anything is measured
	soakWindows = 3
)

func planSoak(r *prng, p *Plan) {
	p.Kind = "soak"
	o := GenOpts{Files: 3, Variants: 3, Secs: 3, Blks: 3, Tmpls: r.p(0.7), Plugin: r.p(0.7), Funcs: lightFuncs, Partials: true, Statics: r.n(3),
		Breaks: []string{"undef", "badref", "perr", "panic", "parse", "miss", "nostyle", "twice", "noplug"}, BreakP: 0.5, TmplBad: 0.4}
	o.Fat = pick(r, []int{0, 0, 20, 40})
	p.World = genWorld(r, o)
	if p.Sched.Mean > 0 && p.Sched.Mean < 20 {
		p.Sched.Mean = 20 // a soak is long
	}
	if p.Sched.Mean > 0 && p.World.pad() > 10000 {
		p.Sched.Mean = 400
	}
	p.Init = p.World.firstState(r)
	p.Cmd.Templates = o.Tmpls
	p.NetBuf = pick(r, []int{512, 4096, 16384, 65536})
	if r.p(0.2) {
		p.SlowMS, p.LazyMS = r.n(7000), r.n(200)
		p.Cmd.Threshold = "1s"
	}
	p.Cycles = 3 + r.n(4)
	p.Vary = r.p(0.5)
	st := p.Init.clone()
	paths := reqPaths(p.World)
	for k := 1 + r.n(3); k > 0; k-- {
		rd := &Round{Gap: pick(r, []int{0, 10, 1500, 5000})}
		if r.p(0.85) {
			rd.Edits = genEdits(r, p.World, &st, 1+r.n(2), []string{"inplace", "rename", "rename"}, true)
		}
		for i := r.n(3); i > 0; i-- {
			q := &Req{Path: pick(r, paths), Mode: pick(r, []string{"leave", "abort", "abort", "cut", "garbage"}), At: r.n(1000), Pause: r.n(50)}
			if q.Mode == "cut" || q.Mode == "garbage" {
				q.At = 1 + r.n(40)
			}
			rd.Clients = append(rd.Clients, &ClientPlan{Name: fmt.Sprintf("bad%d", i), Bad: true, Reqs: []*Req{q}})
		}
		if r.p(0.3) {
			rd.Faults = readFaults(r, p.World, "server", o.Tmpls, 1+r.n(2))
		}
		if r.p(0.6) {
			rd.Clients = append(rd.Clients, genClients(r, p.World, paths, 3, 2)...)
		}
		rd.Quiet = quietReqs(r, p.World, paths, 1)
		if p.Vary {
			rd.Quiet = append(rd.Quiet, &Req{Path: "/nosuch-CYCLE.html"}, &Req{Path: "/", Query: "c=CYCLE"})
		}
		p.Rounds = append(p.Rounds, rd)
	}
	// and everything back to how it was
	last := &Round{}
	back := func(what string, now, init []int) {
		for i := range now {
			if now[i] != init[i] {
				last.Edits = append(last.Edits, &Edit{What: what, Idx: i, Var: init[i], How: "rename", Cut: -1})
			}
		}
	}
	back("f", st.F, p.Init.F)
	back("t", st.T, p.Init.T)
	back("s", st.S, p.Init.S)
	last.Quiet = quietReqs(r, p.World, paths, 1)
	p.Rounds = append(p.Rounds, last)
}

// kept is what there is while nothing is going on.
type kept struct {
	Bytes, Objects int
	Goroutines     int
	NFiles         int
	Files          []string
}

func (r *serverRun) keeps() kept {
	r.kept = map[string]*answer{}
	r.s.log, r.srv.stderr, r.srv.stdout, r.fired, r.calm = nil, nil, nil, nil, nil
	for k, h := range r.ed.hist {
		r.ed.hist[k] = append([]span(nil), h[len(h)-1])
	}
	for n, a := range r.s.actors {
		if a != r.srv && a.main {
			delete(r.s.actors, n)
		}
	}
	r.s.forget()
	r.s.fs.record = map[string][]opRec{}
	var k kept
	raw(func() {
		_ = filepath.WalkDir(".", func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() && !strings.HasPrefix(p, "store/") && !strings.HasSuffix(p, "~") {
				k.Files = append(k.Files, p)
			}
			return nil
		})
		sort.Strings(k.Files)
		k.NFiles = len(k.Files)
	})
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	k.Bytes, k.Objects, k.Goroutines = int(m.HeapAlloc)-8*cap(r.s.rec.Preempts)-16*cap(r.s.rec.Picks), int(m.HeapObjects), runtime.NumGoroutine()
	return k
}

func phaseSoak(w *worker) bool {
	s := w.start()
	p := w.plan
	r := &serverRun{w: w, s: s, p: p, cache: map[string]*Model{}, kept: map[string]*answer{}}
	r.ed = newEditor(s, p.World, p.Init)
	raw(func() { must(os.MkdirAll("out", 0o755)); must(os.MkdirAll("templates", 0o755)) })
	r.ed.init()
	cmd := p.Cmd
	cmd.Serve, cmd.Out = true, true
	r.srv = s.command("server", cmd.args(p.World))
	r.srv.keep = true
	var ms []kept
	reqs := 0
	var spent struct {
		yields uint64
		picks  int
	}
	for c := 1; c <= soakWarm+soakWindows*p.Cycles; c++ {
		reqs = 0
		s.maxYields += s.yields - spent.yields // the budgets are for each cycle
		s.maxPicks += s.picks - spent.picks
		spent.yields, spent.picks = s.yields, s.picks
		if p.Vary {
			r.ed.salt = fmt.Sprintf("salt%06d", c)
			r.agent = fmt.Sprintf("sim/%06d", c)
		}
		for k, rd := range p.Rounds {
			n, ok := r.soakRound(k, varied(rd, c))
			if !ok {
				return false
			}
			reqs += n
		}
		// connections nobody uses any more are closed by and by
		s.run(10*time.Minute, func() bool { return false })
		m := r.keeps()
		if os.Getenv("SIM_SOAK") != "" {
			fmt.Fprintln(os.Stderr, "#", c, m.Bytes, m.Objects, m.Goroutines, len(m.Files))
		}
		if c >= soakWarm && (c-soakWarm)%p.Cycles == 0 {
			if n := len(ms); n > 0 {
				ms[n-1].Files = nil // measured, too
			}
			ms = append(ms, m)
		}
	}
	s.stats.Probes["cycles"] += soakWarm + soakWindows*p.Cycles
	grows := func(get func(k kept) int, least int) bool {
		for i := 1; i < len(ms); i++ {
			if get(ms[i])-get(ms[i-1]) < least {
				return false
			}
		}
		return true
	}
	list := func(get func(k kept) int) string {
		var out []string
		for _, m := range ms {
			out = append(out, fmt.Sprint(get(m)))
		}
		return strings.Join(out, ", ")
	}
	every := fmt.Sprintf("(measured every %d cycles of %d requests, nothing in progress, files as they were)", p.Cycles, reqs)
	if get := func(k kept) int { return k.Goroutines }; grows(get, p.Cycles) {
		w.violation("goroutines", "the number of goroutines keeps growing: %s %s", list(get), every)
	}
	if get := func(k kept) int { return k.Objects }; grows(get, soakObjects*p.Cycles+8) {
		w.violation("memory", "the number of objects in memory keeps growing: %s %s", list(get), every)
	}
	if get := func(k kept) int { return k.Bytes }; grows(get, soakBytes*p.Cycles+16384) {
		w.violation("memory", "the memory in use keeps growing: %s bytes %s", list(get), every)
	}
	if get := func(k kept) int { return k.NFiles }; grows(get, 1) {
		w.violation("files", "the number of files keeps growing: %s %s: %v", list(get), every, ms[len(ms)-1].Files)
	}
	return false
}

// Growth per cycle that is no growth: it is below 0.5 objects and 1000 bytes (of
// the simulator's own maps) as measured.
const (
	soakObjects = 2
	soakBytes   = 4000
)

// varied is the round as it is performed the c-th time: what says CYCLE is
// different each time.
func varied(rd *Round, c int) *Round {
	out := *rd
	out.Quiet = nil
	for _, q := range rd.Quiet {
		v := *q
		v.Path = strings.ReplaceAll(v.Path, "CYCLE", fmt.Sprintf("%06d", c))
		v.Query = strings.ReplaceAll(v.Query, "CYCLE", fmt.Sprintf("%06d", c))
		out.Quiet = append(out.Quiet, &v)
	}
	return &out
}

// soakRound performs one round and waits for all of it.
func (r *serverRun) soakRound(k int, rd *Round) (int, bool) {
	s := r.s
	if rd.Gap > 0 {
		s.run(time.Duration(rd.Gap)*time.Millisecond, func() bool { return false })
	}
	s.fs.faults = rd.Faults
	for _, f := range rd.Faults {
		f.seen, f.fired = 0, 0
	}
	var all []*bool
	_, done := r.clientActor("editor", func(*client) {
		for _, e := range rd.Edits {
			r.ed.do(e, true)
		}
	})
	all = append(all, done)
	n := 0
	for _, c := range rd.Clients {
		n += len(c.Reqs)
		if c.Bad {
			s.probe("bad-client")
		}
		all = append(all, r.ask(c.Name, c.Reqs, c.Delay, func(a *answer) {}))
	}
	ok := s.run(r.p.limit(), func() bool { return allDone(all) })
	s.fs.faults = nil
	if !ok || r.dead() {
		return 0, false
	}
	n += len(rd.Quiet)
	done = r.ask("quiet", rd.Quiet, 0, func(a *answer) {
		if d := r.judge(a, r.ed.st); d != "" {
			r.w.violation("quiet", "round %d: GET %s with nothing changing: %s", k, a.req.Path, d)
		} else {
			s.probe("settled")
			if a.status == 500 {
				s.probe("defect-reported")
			}
		}
	})
	return n, s.run(r.p.limit(), func() bool { return *done }) && !r.dead()
}
