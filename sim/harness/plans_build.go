//go:build go1.22

package verifsim

import "fmt"

func init() {
	plans["C05"] = planOutput
	plans["C06"] = planRead
	plans["C07"] = planRebuild
	plans["C08"] = planRepro
}

// buildWorld makes the documents and a command for build plans.
func buildWorld(r *prng, p *Plan, variants int, breaks []string) GenOpts {
	p.Kind = "build"
	o := GenOpts{Files: 4, Variants: variants, Secs: 5, Blks: 3, Tmpls: r.p(0.5), Plugin: r.p(0.4), Funcs: lightFuncs,
		Partials: true, Breaks: breaks, BreakP: 0.5, TmplBad: 0}
	if len(breaks) > 0 {
		o.TmplBad = 0.3
	}
	if r.p(0.25) {
		o.Text = true
	}
	if r.p(0.1) && !o.Text {
		o.AllowBad = true
	}
	if o.Text || o.AllowBad {
		// there are no text templates for references and targets
		o.Breaks = nil
		for _, b := range breaks {
			if o.AllowBad && b != "dupref" || o.Text && b != "badref" && b != "amb" && b != "dupref" {
				o.Breaks = append(o.Breaks, b)
			}
		}
	}
	if r.p(0.15) {
		o.Fat = r.n(20)
		if r.p(0.2) {
			o.Huge = r.n(1000)
		}
	}
	o.Large = p.Prop == "C06"
	o.Orphan = p.Prop == "C05" && r.p(0.1) && !o.Text
	p.World = genWorld(r, o)
	p.Init = p.World.firstState(r)
	p.Cmd = CmdPlan{Templates: o.Tmpls, Out: true, Search: r.p(0.5), Debug: r.p(0.1), AllowBroken: o.AllowBad}
	if o.Text {
		p.Cmd.Text = pick(r, []string{"md", "txt", "text"})
	}
	switch r.n(12) {
	case 0, 1:
		p.Cmd.Out = false
		p.Cmd.Search = false
	case 2:
		p.Cmd.SectionTag = pick(r, reqPaths(p.World))
		p.Cmd.SectionTag = p.Cmd.SectionTag[1:]
		if n := len(p.Cmd.SectionTag); n > 5 {
			p.Cmd.SectionTag = p.Cmd.SectionTag[:n-5]
		} else {
			p.Cmd.SectionTag = ""
		}
		p.Cmd.Out = r.p(0.6)
		if !p.Cmd.Out {
			p.Cmd.Search = false
		}
	}
	if p.Cmd.Out {
		if r.p(0.3) {
			p.Cmd.Sub = pick(r, []string{"site", "site/v1", "a b/c", "100%s/d", "ünï"})
		}
		if r.p(0.2) {
			p.Cmd.OutArg = pick(r, []string{"./OUT", "OUT/", "OUT//", "./OUT/."})
		}
	}
	return o
}

func randomState(r *prng, w *World, st State) State {
	st = st.clone()
	for i, f := range w.Files {
		if r.p(0.5) {
			st.F[i] = r.n(len(f.Vars))
		}
	}
	for i, t := range w.Tmpls {
		if r.p(0.4) {
			st.T[i] = r.n(len(t.Vars))
		}
	}
	return st
}

func step(r *prng, p *Plan, st State) *BuildStep {
	b := &BuildStep{State: st.clone(), Cmd: p.Cmd, Seed: r.u64(), Sched: genSched(r)}
	if r.p(0.2) {
		b.Short = pick(r, []int{3, 7, 64, 512})
	}
	return b
}

// logN draws from 1..max, small numbers more often.
func logN(r *prng, max int) int {
	k := 1
	for k < max && r.p(0.75) {
		k *= 2
	}
	return min(max, k+r.n(k))
}

// outFaults makes faults on the writing side.
func outFaults(r *prng, p *Plan, n int) []*Fault {
	var out []*Fault
	ext := "." + p.Cmd.ext()
	path := func() string {
		switch x := r.n(8); {
		case x == 0 && p.Cmd.Search:
			return "search_index"
		case x < 4:
			return "out/"
		case x == 4:
			return "index" + ext
		}
		tags := reqPaths(p.World)
		t := pick(r, tags)
		if len(t) > 6 {
			return p.Cmd.dir() + "/" + t[1:len(t)-5] + ext
		}
		return "out/"
	}
	for i := 0; i < n; i++ {
		f := &Fault{Actor: "build", Path: path(), Nth: 1, Mode: "err", Err: pick(r, []string{"ENOSPC", "EIO", "EDQUOT", "EROFS", "EACCES"})}
		switch x := r.n(12); {
		case !p.Cmd.Out:
			f.Op, f.Path, f.Nth = "write", "stdout", logN(r, 200)
			f.Err = pick(r, []string{"ENOSPC", "EIO", "EDQUOT"})
			if r.p(0.4) {
				f.Mode, f.Limit = "short", r.n(100)
			}
		case x < 4:
			f.Op, f.Nth = "write", logN(r, 300)
			f.Count = pick(r, []int{0, 0, -1, 1, 3})
		case x < 6:
			f.Op, f.Nth, f.Mode, f.Limit = "write", logN(r, 300), "short", r.n(100)
			f.Count = pick(r, []int{0, -1})
		case x < 9:
			f.Op, f.Nth, f.Mode = "write", logN(r, 300), "drop"
			f.Err = pick(r, []string{"ENOSPC", "EIO", "EDQUOT"})
			f.Count = pick(r, []int{0, -1, 5})
		case x == 9:
			f.Op, f.Nth = "create", 1+r.n(4)
		case x == 10:
			f.Op, f.Nth = "close", 1+r.n(4)
		default:
			f.Op, f.Path = pick(r, []string{"mkdir", "stat"}), "out"
		}
		out = append(out, f)
	}
	return out
}

// planOutput: everything that can go wrong while the output is written.
func planOutput(r *prng, p *Plan) {
	var breaks []string
	if r.p(0.3) {
		breaks = allBreaks
	}
	buildWorld(r, p, 2, breaks)
	st := p.Init
	if breaks != nil {
		st = randomState(r, p.World, st)
	}
	if p.World.Orphan > 0 {
		p.Cmd.SectionTag, p.Cmd.Search = "", false
		p.Cmd.SectionFile = p.World.Orphan
	}
	for k := 1 + r.n(3); k > 0; k-- {
		b := step(r, p, st)
		b.Wipe = r.p(0.5)
		if r.p(0.85) {
			b.Faults = outFaults(r, p, 1+r.n(2))
		}
		if r.p(0.3) && b.Cmd.Out {
			b.Old = []int{r.n(50), r.n(50)}
		}
		p.Steps = append(p.Steps, b)
	}
}

// planRead: everything that can go wrong while documents and templates are read.
func planRead(r *prng, p *Plan) {
	var breaks []string
	if r.p(0.2) {
		breaks = allBreaks
	}
	o := buildWorld(r, p, 2, breaks)
	st := p.Init
	if breaks != nil {
		st = randomState(r, p.World, st)
	}
	for k := 1 + r.n(3); k > 0; k-- {
		b := step(r, p, st)
		b.Wipe = r.p(0.7)
		b.Faults = readFaults(r, p.World, "build", o.Tmpls, 1+r.n(2))
		if r.p(0.3) {
			// documents change while they are read
			b.Strict = true
			b.Faults, b.Edits = nil, nil
			for i := 1 + r.n(3); i > 0; i-- {
				f := r.n(len(p.World.Files))
				b.Faults = append(b.Faults, &Fault{Actor: "build", Path: p.World.Files[f].Path, Op: pick(r, []string{"open", "open", "read", "stat", "close"}),
					Nth: pick(r, []int{1, 1, 2}), Mode: "edit", Edit: len(b.Edits)})
				b.Edits = append(b.Edits, &Edit{What: "f", Idx: f, Var: r.n(len(p.World.Files[f].Vars)), How: pick(r, []string{"rename", "rename", "inplace"}), Cut: -1, Fault: true})
			}
		}
		p.Steps = append(p.Steps, b)
	}
}

// planRebuild: builds of changing documents, some of which fail or are killed,
// and finally one that succeeds.
func planRebuild(r *prng, p *Plan) {
	o := buildWorld(r, p, 3, allBreaks)
	st := p.Init.clone()
	if !p.Cmd.Out {
		p.Cmd.Out, p.Cmd.Search = true, true
	}
	for k := 1 + r.n(4); k > 0; k-- {
		b := step(r, p, st)
		switch r.n(8) {
		case 0, 1, 2, 3:
			b.Faults = []*Fault{{Actor: "build", Op: pick(r, []string{"any", "any", "write", "create", "close"}), Path: pick(r, []string{"out", "out/", "out/", "src/"}),
				Nth: logN(r, 400), Mode: "crash", Limit: r.n(60)}}
		case 4:
			b.Faults = outFaults(r, p, 1+r.n(2))
		case 5:
			b.Faults = readFaults(r, p.World, "build", o.Tmpls, 1)
		}
		if r.p(0.3) {
			b.Old = []int{r.n(50), r.n(50), r.n(50)}
		}
		p.Steps = append(p.Steps, b)
		st = randomState(r, p.World, st)
	}
	// the last one is of documents without defects
	for i, f := range p.World.Files {
		if st.F[i] > 0 && r.p(0.9) {
			if f.Vars[st.F[i]] != nil && anyBreak(f.Vars[st.F[i]]) {
				st.F[i] = 0
			}
		}
	}
	for i, t := range p.World.Tmpls {
		if st.T[i] >= 0 && t.Vars[st.T[i]] != "ok" {
			st.T[i] = 0
		}
	}
	b := step(r, p, st)
	if r.p(0.3) {
		b.Old = []int{r.n(50), r.n(50)}
	}
	p.Steps = append(p.Steps, b)
}

func anyBreak(s *Sec) bool {
	if s.Break != "" {
		return true
	}
	for _, k := range s.Kids {
		if k.Sec != nil && anyBreak(k.Sec) {
			return true
		}
	}
	return false
}

// planRepro: the same files, built under different circumstances.
func planRepro(r *prng, p *Plan) {
	var breaks []string
	if r.p(0.5) {
		breaks = append([]string{"badref", "amb", "badref", "amb"}, allBreaks...)
	}
	buildWorld(r, p, 2, breaks)
	p.World.Fat = 0
	st := p.Init
	if breaks != nil {
		st = randomState(r, p.World, st)
	}
	if r.p(0.3) {
		p.Cmd.Out, p.Cmd.Search = true, true
	}
	for k := 2 + r.n(3); k > 0; k-- {
		b := step(r, p, st)
		b.Wipe = r.p(0.5)
		b.Clock = pick(r, []int{0, 1, 86400, 31 * 86400 * 12})
		b.Zone = pick(r, []int{0, 0, 0, 60, -480, 345, 840})
		if tick := pick(r, []int{0, 0, 1, 7}); b.Short == 0 && !b.Cmd.Debug {
			b.Tick = tick // too little to make any function slow
		}
		for _, kv := range []string{"HOME=/home/someone", "USER=someone", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR", "TERM=xterm-256color",
			"COLUMNS=40", "NO_COLOR=1", "CI=true", "SOURCE_DATE_EPOCH=1", "EDITOR=vi", "HOSTNAME=elsewhere", "DEBUG=1", "GODEBUG=x=1", "PWD=/nowhere"} {
			if r.p(0.15) {
				b.Env = append(b.Env, kv)
			}
		}
		if r.p(0.3) && b.Cmd.Out {
			b.Old = []int{r.n(50), r.n(50)}
		}
		p.Steps = append(p.Steps, b)
	}
	p.Repro = true
}

var _ = fmt.Sprint
