//go:build go1.22

package verifsim

import (
	"fmt"
	"strings"
	"time"
)

// genPlan makes the plan of one seed for one property.
func genPlan(prop string, seed uint64, race bool) *Plan {
	r := newPRNG(seed, prop)
	p := &Plan{Prop: prop, Seed: seed, Race: race}
	p.Sched = genSched(r)
	p.SimSeed = r.u64()
	g := plans[prop]
	if g == nil {
		panic("no plan for " + prop)
	}
	g(r, p)
	return p
}

var plans = map[string]func(r *prng, p *Plan){
	"C01": planFresh,
	"C02": planIsolated,
	"C03": planProgress,
	"C04": planRecover,
	"C14": planCause,
}

func genSched(r *prng) Sched {
	sc := Sched{Seed: r.u64()}
	switch r.n(10) {
	case 0:
		sc.Policy = "seq"
	case 1, 2:
		sc.Policy = "io"
	case 3, 4, 5:
		sc.Policy = "pct"
		sc.Depth = 1 + r.n(5)
		sc.Horizon = pick(r, []int{300, 2000, 8000, 30000})
	default:
		sc.Policy = "rand"
		sc.Mean = pick(r, []int{2, 5, 20, 100, 400})
	}
	return sc
}

var lightFuncs = []string{"word", "second", "lazy", "bolds", "sseq", "spare", "slazy", "none", "nil"}

// reqPaths lists what a client may usefully ask for.
func reqPaths(w *World) []string {
	out := []string{"/", "/index.html"}
	seen := map[string]bool{"index": true}
	var walk func(s *Sec)
	walk = func(s *Sec) {
		for _, t := range s.Tags {
			if !seen[t] {
				seen[t] = true
				out = append(out, "/"+t+".html")
			}
		}
		for _, b := range s.Blks {
			for _, row := range b.Rows {
				for _, c := range row {
					for _, i := range c {
						if i.K == "tgt" && !seen[i.Tag] {
							seen[i.Tag] = true
							out = append(out, "/"+i.Tag+".html")
						}
					}
				}
			}
		}
		for _, k := range s.Kids {
			if k.Sec != nil {
				walk(k.Sec)
			}
		}
	}
	for _, f := range w.Files {
		walk(f.Vars[0])
	}
	return out
}

func genReq(r *prng, w *World, paths []string) *Req {
	q := &Req{Path: pick(r, paths)}
	switch x := r.n(20); {
	case x == 0:
		q.Path = "/nosuch.html"
	case x == 1 && len(w.Statics) == 0:
		q.Path = "/nosuch.png"
	case x <= 3 && len(w.Statics) > 0:
		q.Path = "/" + pick(r, w.Statics).Name
		if i := strings.LastIndexByte(q.Path, '/'); i > 0 && r.p(0.4) {
			q.Path = q.Path[:i+1]
		}
	case x <= 7:
		q.Path = "/"
	}
	if r.p(0.4) {
		q.Keep = true
	}
	if r.p(0.04) {
		q.Method = "HEAD"
	}
	if q.Cond = r.p(0.5); r.p(0.1) {
		q.Query = pick(r, []string{"q=1", "v=2", "reload"})
	}
	q.Gzip = r.p(0.2)
	if r.p(0.06) {
		q.Enc = r.between(1, 60)
	}
	return q
}

func quietReqs(r *prng, w *World, paths []string, n int) []*Req {
	var out []*Req
	out = append(out, &Req{Path: "/"})
	for i := 0; i < n; i++ {
		q := genReq(r, w, paths)
		out = append(out, q)
	}
	return out
}

// genEdits moves the world from st to other variants, updating st.
func genEdits(r *prng, w *World, st *State, n int, hows []string, bad bool) []*Edit {
	var out []*Edit
	seen := map[string]bool{}
	for try := 0; try < n*4 && len(out) < n; try++ {
		e := &Edit{What: "f", Cut: -1}
		switch x := r.n(10); {
		case x < 4 && len(w.Tmpls) > 0:
			e.What = "t"
			e.Idx = r.n(len(w.Tmpls))
			e.Var = r.n(len(w.Tmpls[e.Idx].Vars)+1) - 1
			if e.Var < 0 && w.Tmpls[e.Idx].Name == "fancy" && !bad {
				continue
			}
			if st.T[e.Idx] == e.Var {
				continue
			}
		case x == 4 && len(w.Statics) > 0:
			e.What = "s"
			e.Idx = r.n(len(w.Statics))
			e.Var = r.n(w.Statics[e.Idx].Vars+1) - 1
			if st.S[e.Idx] == e.Var {
				continue
			}
		default:
			e.Idx = r.n(len(w.Files))
			e.Var = r.n(len(w.Files[e.Idx].Vars))
			if bad && r.p(0.12) {
				e.Var = -1
			}
			if st.F[e.Idx] == e.Var {
				continue
			}
		}
		k := fmt.Sprint(e.What, e.Idx)
		if seen[k] {
			continue
		}
		seen[k] = true
		e.How = pick(r, hows)
		if e.How == "inplace" && r.p(0.5) {
			e.Cut = r.n(200)
			if r.p(0.5) {
				e.Cut = 0
			}
			e.Gap = r.n(3)
		}
		if r.p(0.5) {
			e.Wait = r.n(20)
		}
		if w.linked(e.What, e.Idx) && e.Var >= 0 && r.p(0.4) {
			e.How, e.Cut = "relink", -1
		}
		switch e.What {
		case "f":
			st.F[e.Idx] = e.Var
		case "t":
			st.T[e.Idx] = e.Var
		default:
			st.S[e.Idx] = e.Var
		}
		out = append(out, e)
	}
	return out
}

func genClients(r *prng, w *World, paths []string, nc, nr int) []*ClientPlan {
	var out []*ClientPlan
	for i := 1 + r.n(nc); i > 0; i-- {
		c := &ClientPlan{Name: fmt.Sprintf("client%d", i)}
		if r.p(0.3) {
			c.Delay = r.n(10)
		}
		for j := 1 + r.n(nr); j > 0; j-- {
			q := genReq(r, w, paths)
			if r.p(0.2) {
				q.Wait = r.n(5)
			}
			c.Reqs = append(c.Reqs, q)
		}
		out = append(out, c)
	}
	return out
}

func genNet(r *prng, p *Plan) {
	p.NetBuf = pick(r, []int{64, 512, 4096, 16384, 65536})
	if r.p(0.3) {
		p.Short = pick(r, []int{1, 7, 64, 512})
		if p.Short == 1 {
			p.Short = 3
		}
	}
}

var allHows = []string{"inplace", "inplace", "rename", "restore", "relink"}

// planFresh: a live server while documents, templates and static files change.
func planFresh(r *prng, p *Plan) {
	p.Kind = "server"
	o := GenOpts{Files: 4, Variants: 4, Secs: 4, Blks: 3, Tmpls: r.p(0.6), Plugin: r.p(0.4), Funcs: lightFuncs,
		Partials: true, Statics: r.n(3)}
	if r.p(0.02) {
		o.Huge = 1 + r.n(1500)
	}
	p.World = genWorld(r, o)
	p.Init = p.World.firstState(r)
	p.Cmd.Templates = o.Tmpls
	genNet(r, p)
	st := p.Init.clone()
	paths := reqPaths(p.World)
	p.Rounds = append(p.Rounds, &Round{Quiet: quietReqs(r, p.World, paths, 2)})
	for k := 1 + r.n(5); k > 0; k-- {
		rd := &Round{Gap: pick(r, []int{0, 1, 30, 400, 1100, 5000, 3600000})}
		rd.Edits = genEdits(r, p.World, &st, 1+r.n(3), allHows, false)
		if r.p(0.7) {
			rd.Clients = genClients(r, p.World, paths, 3, 3)
		}
		if r.p(0.4) {
			slowReads(r, p.World, rd, paths)
		}
		rd.Quiet = quietReqs(r, p.World, paths, 3)
		p.Rounds = append(p.Rounds, rd)
	}
}

// slowReads makes reading take its time, so that requests, most of them for the
// same page, and edits come in while others are being answered.
func slowReads(r *prng, w *World, rd *Round, paths []string) {
	for i := 1 + r.n(2); i > 0; i-- {
		f := &Fault{Actor: "server", Path: pick(r, w.Files).Path, Op: pick(r, []string{"stat", "open", "read", "read", "close"}),
			Nth: 1, Count: pick(r, []int{0, 2, -1}), Mode: "delay", Delay: 1 + r.n(30)}
		if f.Count >= 0 && r.p(0.2) {
			f.Delay = r.n(30000)
		}
		switch {
		case r.p(0.2) && len(w.Tmpls) > 0:
			f.Path = "templates/"
		case r.p(0.2):
			f.Path = "src/"
		}
		rd.Faults = append(rd.Faults, f)
	}
	hot := pick(r, paths)
	if len(rd.Clients) == 0 {
		rd.Clients = genClients(r, w, paths, 3, 3)
	}
	for _, c := range rd.Clients {
		for _, q := range c.Reqs {
			if r.p(0.75) {
				q.Path = hot
			}
			if r.p(0.5) {
				q.Wait = r.n(30)
			}
		}
	}
	for _, e := range rd.Edits {
		if r.p(0.5) {
			e.Wait = r.n(30)
		}
	}
}

// planIsolated: many requests at once, nothing else changing.
func planIsolated(r *prng, p *Plan) {
	p.Kind = "server"
	o := GenOpts{Files: 3, Variants: 1, Secs: 4, Blks: 3, Tmpls: r.p(0.5), Plugin: r.p(0.7), Funcs: lightFuncs,
		Partials: true, Statics: r.n(2)}
	if r.p(0.3) {
		o.Variants = 3
		o.Breaks = []string{"undef", "badref", "arity", "twice", "perr", "badrow", "amb", "miss", "parse"}
		o.BreakP = 0.6
	}
	if r.p(0.02) {
		o.Huge = 1 + r.n(1500)
	}
	p.World = genWorld(r, o)
	p.Init = p.World.firstState(r)
	if o.Variants > 1 {
		for i, f := range p.World.Files {
			if r.p(0.5) {
				p.Init.F[i] = r.n(len(f.Vars))
			}
		}
	}
	p.Cmd.Templates = o.Tmpls
	genNet(r, p)
	if r.p(0.3) {
		p.LazyMS = r.n(50)
	}
	paths := reqPaths(p.World)
	for k := 1 + r.n(2); k > 0; k-- {
		rd := &Round{Clients: genClients(r, p.World, paths, 6, 4)}
		if r.p(0.3) {
			slowReads(r, p.World, rd, paths)
		}
		if k == 1 {
			rd.Quiet = quietReqs(r, p.World, paths, 2)
		}
		p.Rounds = append(p.Rounds, rd)
	}
}

// planProgress: misbehaving clients, failing and panicking documents; everyone
// else is served.
func planProgress(r *prng, p *Plan) {
	p.Kind = "server"
	o := GenOpts{Files: 3, Variants: 3, Secs: 4, Blks: 3, Tmpls: r.p(0.5), Plugin: true, Funcs: append([]string{"slow"}, lightFuncs...),
		Partials: true, Statics: 1, Fat: r.n(30),
		Breaks: []string{"undef", "badref", "perr", "panic", "panic", "panic", "parse", "miss", "loop", "unfinished", "deep"}, BreakP: 0.5, TmplBad: 0.4}
	p.World = genWorld(r, o)
	p.Init = p.World.firstState(r)
	p.Cmd.Templates = o.Tmpls
	p.NetBuf = pick(r, []int{64, 256, 1024, 4096, 16384})
	if r.p(0.4) {
		p.LazyMS = r.n(pick(r, []int{200, 200, 7000}))
	}
	if r.p(0.4) {
		p.SlowMS = r.n(7000)
	}
	if r.p(0.1) {
		// far longer than any timeout a server may have
		p.SlowMS, p.LazyMS = r.n(400000), r.n(100000)
	}
	forever := 2 * int(p.limit()/time.Millisecond)
	paths := reqPaths(p.World)
	st := p.Init.clone()
	nbad := 0
	for k := 1 + r.n(4); k > 0; k-- {
		rd := &Round{Gap: pick(r, []int{0, 10, 1500})}
		if r.p(0.6) {
			rd.Edits = genEdits(r, p.World, &st, 1+r.n(2), allHows, true)
		}
		for i := r.n(4); i > 0; i-- {
			nbad++
			q := &Req{Path: pick(r, paths), Pause: forever}
			switch r.n(7) {
			case 6:
				q.Mode = "leave"
				q.Pause = r.n(1 + pick(r, []int{5, p.LazyMS, p.SlowMS, p.SlowMS + 2*p.LazyMS}))
			case 0, 1, 2:
				q.Mode = "stall"
				q.At = r.n(3000)
				if r.p(0.5) {
					q.At = 0
				}
			case 3:
				q.Mode = "half"
				q.At = 1 + r.n(40)
			case 4:
				q.Mode = "abort"
				q.At = r.n(2000)
			case 5:
				q.Mode = pick(r, []string{"cut", "garbage"})
				q.At = 1 + r.n(40)
				q.Pause = r.n(50)
			}
			rd.Clients = append(rd.Clients, &ClientPlan{Name: fmt.Sprintf("bad%d", nbad), Bad: true, Reqs: []*Req{q}, Delay: r.n(5)})
		}
		if len(p.Rounds) == 0 && r.p(0.06) {
			// a crowd that does nothing but be there
			for i := 30 + r.n(120); i > 0; i-- {
				nbad++
				q := &Req{Path: pick(r, paths), Pause: forever, Mode: "half", At: r.n(40)}
				if r.p(0.1) {
					q.Mode, q.At = "stall", 0
				}
				rd.Clients = append(rd.Clients, &ClientPlan{Name: fmt.Sprintf("bad%d", nbad), Bad: true, Reqs: []*Req{q}})
			}
		}
		if r.p(0.4) {
			rd.Faults = readFaults(r, p.World, "server", o.Tmpls, 1+r.n(2))
		}
		cs := genClients(r, p.World, paths, 3, 3)
		for _, c := range cs {
			c.Delay += r.n(50)
			if r.p(0.2) {
				c.Reqs[0].Mode = "slow"
				c.Reqs[0].At = 20 + r.n(300)
				c.Reqs[0].Pause = 1 + r.n(20)
			}
		}
		rd.Clients = append(rd.Clients, cs...)
		rd.Quiet = quietReqs(r, p.World, paths, 2)
		p.Rounds = append(p.Rounds, rd)
	}
}

var allBreaks = []string{"undef", "badref", "arity", "twice", "perr", "badrow", "amb", "miss", "parse", "noplug", "dupref", "loop", "unfinished", "nostyle"}

// readFaults makes faults on the reading side.
func readFaults(r *prng, w *World, actor string, tmpls bool, n int) []*Fault {
	var out []*Fault
	for i := 0; i < n; i++ {
		f := &Fault{Actor: actor, Nth: 1 + r.n(3), Count: pick(r, []int{0, 0, 1, 2, 5, -1}), Mode: "err",
			Err: pick(r, []string{"EIO", "EMFILE", "EACCES", "ENOMEM", "ESTALE", "EIO", "ENOTDIR", "ETIMEDOUT", "ELOOP"})}
		switch x := r.n(10); {
		case x < 6:
			f.Path = pick(r, w.Files).Path
			f.Op = pick(r, []string{"stat", "open", "read", "read", "close"})
		case x < 8 && tmpls:
			f.Path = "templates/" + pick(r, w.Tmpls).Name + ".tmpl"
			f.Op = pick(r, []string{"stat", "open", "read", "read"})
		case tmpls:
			f.Path = "templates"
			f.Op = pick(r, []string{"opendir", "open", "readdir", "readdir", "stat", "lstat"})
			if f.Op == "readdir" && r.p(0.6) {
				// some of the entries, then the failure
				f.Mode, f.Limit, f.Nth = "short", 1+r.n(3), 1
			}
		default:
			f.Path = "src/"
			f.Op = "any"
			f.Nth = 1 + r.n(20)
		}
		out = append(out, f)
	}
	return out
}

// planRecover: things go wrong (defects in the documents and templates, I/O
// errors), are reported, and then get repaired.
func planRecover(r *prng, p *Plan) {
	p.Kind = "server"
	o := GenOpts{Files: 3, Variants: 4, Secs: 3, Blks: 3, Tmpls: r.p(0.7), Plugin: r.p(0.4), Funcs: lightFuncs,
		Partials: true, Breaks: allBreaks, BreakP: 0.5, TmplBad: 0.5}
	if p.Prop == "C09" && r.p(0.5) || p.Prop == "C04" && r.p(0.15) {
		o.Breaks = append([]string{"panic", "panic", "panic"}, allBreaks...)
	}
	if p.Prop == "C04" && r.p(0.06) {
		o.Huge = 1 + r.n(800)
	}
	if p.Prop == "C09" || r.p(0.3) {
		o.Statics = r.n(4)
	}
	p.World = genWorld(r, o)
	p.Init = p.World.firstState(r)
	p.Cmd.Templates = o.Tmpls
	genNet(r, p)
	st := p.Init.clone()
	paths := reqPaths(p.World)
	if r.p(0.7) {
		p.Rounds = append(p.Rounds, &Round{Quiet: quietReqs(r, p.World, paths, 1)})
	}
	for k := 1 + r.n(5); k > 0; k-- {
		rd := &Round{Gap: pick(r, []int{0, 1, 30, 400, 1100, 5000})}
		if r.p(0.8) {
			rd.Edits = genEdits(r, p.World, &st, 1+r.n(3), allHows, true)
		}
		if r.p(0.6) {
			rd.Faults = readFaults(r, p.World, "server", o.Tmpls, 1+r.n(3))
			if o.Statics > 0 && r.p(0.5) {
				rd.Faults = append(rd.Faults, &Fault{Actor: "server", Path: "out", Op: pick(r, []string{"stat", "open", "read", "opendir", "readdir", "any", "close"}),
					Nth: 1 + r.n(6), Count: pick(r, []int{0, 1, 3}), Mode: "err", Err: pick(r, []string{"EIO", "EMFILE", "EACCES"})})
			}
		}
		rd.Clients = genClients(r, p.World, paths, 3, 3)
		rd.Quiet = quietReqs(r, p.World, paths, 2)
		p.Rounds = append(p.Rounds, rd)
	}
}

// planCause: the file an error is about changes, shrinks, vanishes or cannot be
// read any more while the report is being written.
func planCause(r *prng, p *Plan) {
	if r.p(0.5) {
		planCauseBuild(r, p)
		return
	}
	planRecover(r, p)
	w := p.World
	if len(p.Rounds) > 2 {
		p.Rounds = p.Rounds[:2]
	}
	for _, rd := range p.Rounds {
		rd.Faults = nil
	}
	for k := 1 + r.n(3); k > 0; k-- {
		// an error about to be reported
		rd := &Round{Gap: 10, Strict: r.p(0.8)}
		bad, badVar := badFile(r, w)
		was := p.Rounds[len(p.Rounds)-1].Strict // and may have left files cut short
		for f, df := range w.Files {
			v := 0
			if r.p(0.6) {
				v = r.n(len(df.Vars))
			}
			if f == bad && badVar > 0 {
				v = badVar
			}
			if rd.Strict || was || r.p(0.5) {
				rd.Edits = append(rd.Edits, &Edit{What: "f", Idx: f, Var: v, How: "rename", Cut: -1})
			}
		}
		rd.Faults, rd.Edits = causeFaults(r, w, bad, "server", rd.Edits, rd.Strict)
		if rd.Strict {
			q := genReq(r, w, reqPaths(w))
			q.Keep = false
			rd.Quiet = []*Req{q}
		} else {
			rd.Clients = genClients(r, w, reqPaths(w), 2, 3)
			rd.Quiet = quietReqs(r, w, reqPaths(w), 1)
		}
		p.Rounds = append(p.Rounds, rd)
	}
}

// badFile picks a file and a version of it that has a defect, most of the time.
func badFile(r *prng, w *World) (int, int) {
	type fv struct{ f, v int }
	var all []fv
	for f, df := range w.Files {
		for v, sc := range df.Vars {
			if anyBreak(sc) {
				all = append(all, fv{f, v})
			}
		}
	}
	if len(all) == 0 || r.p(0.1) {
		return r.n(len(w.Files)), 0
	}
	x := pick(r, all)
	return x.f, x.v
}

// causeFaults makes the files errors are about change or fail.
func causeFaults(r *prng, w *World, bad int, actor string, edits []*Edit, strict bool) ([]*Fault, []*Edit) {
	var out []*Fault
	for i := 1 + r.n(3); i > 0; i-- {
		f := bad
		if r.p(0.3) {
			f = r.n(len(w.Files))
		}
		ft := &Fault{Actor: actor, Path: w.Files[f].Path, Op: pick(r, []string{"open", "open", "open", "read", "stat", "close", "any"}), Nth: 1 + r.n(4)}
		if ft.Op == "open" || ft.Op == "close" {
			ft.Nth = 1 + r.n(3)
			if r.p(0.5) {
				ft.Nth = 2
			}
		}
		if ft.Op == "any" {
			ft.Nth = 1 + r.n(14)
		}
		switch r.n(3) {
		case 0:
			ft.Mode = "err"
			ft.Err = pick(r, []string{"EIO", "EMFILE", "EACCES"})
			ft.Count = pick(r, []int{0, 0, -1})
		default:
			ft.Mode = "edit"
			ft.Edit = len(edits)
			e := &Edit{What: "f", Idx: f, Var: -1, How: pick(r, []string{"inplace", "rename", "rename"}), Cut: -1, Fault: true}
			if r.p(0.2) {
				e.Idx = r.n(len(w.Files))
			}
			if r.p(0.6) {
				e.Var = r.n(len(w.Files[e.Idx].Vars))
				if strict && r.p(0.6) {
					e.Short = true // much less, or nothing at all
					e.Cut = pick(r, []int{-1, -1, 0, 1, 10, 30, r.n(1000)})
				}
			}
			edits = append(edits, e)
		}
		out = append(out, ft)
	}
	return out, edits
}

func planCauseBuild(r *prng, p *Plan) {
	o := buildWorld(r, p, 3, allBreaks)
	_ = o
	for k := 1 + r.n(3); k > 0; k-- {
		st := randomState(r, p.World, p.Init)
		bad, v := badFile(r, p.World)
		if v > 0 {
			st.F[bad] = v
		}
		b := step(r, p, st)
		b.Wipe, b.Strict = r.p(0.5), true
		b.Faults, b.Edits = causeFaults(r, p.World, bad, "build", nil, true)
		p.Steps = append(p.Steps, b)
	}
}
