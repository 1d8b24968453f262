//go:build go1.22

package verifsim

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"
)

// Minimisation: a violation's plan is made smaller as long as it still breaks
// the same rule, first what happens in it, then how it is scheduled.

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	c := &Plan{}
	_ = json.Unmarshal(b, c)
	return c
}

// cut returns xs without xs[i:j].
func cut[T any](xs []T, i, j int) []T {
	out := append([]T(nil), xs[:i]...)
	return append(out, xs[j:]...)
}

// drops makes candidates without parts of the list get gives: big parts first.
func drops[T any](p *Plan, keep int, get func(p *Plan) *[]T) []*Plan {
	var out []*Plan
	n := len(*get(p))
	for size := n - keep; size >= 1; size /= 2 {
		for hi := n; hi >= size; hi -= size {
			c := clonePlan(p)
			l := get(c)
			*l = cut(*l, hi-size, hi)
			if len(*l) >= keep {
				out = append(out, c)
			}
		}
	}
	return out
}

// dropEdits removes edits of a round and the faults that perform them.
func dropEdits(rd *Round, i int) {
	rd.Edits = cut(rd.Edits, i, i+1)
	var fs []*Fault
	for _, f := range rd.Faults {
		if f.Mode == "edit" {
			if f.Edit == i {
				continue
			}
			if f.Edit > i {
				f.Edit--
			}
		}
		fs = append(fs, f)
	}
	rd.Faults = fs
}

// simpler lists smaller plans, the boldest first.
func simpler(p *Plan) []*Plan {
	var out []*Plan
	add := func(change func(c *Plan) bool) {
		c := clonePlan(p)
		if change(c) {
			out = append(out, c)
		}
	}
	seq := Sched{Policy: "seq", Seed: 1}
	if len(p.Steps) == 0 {
		add(func(c *Plan) bool {
			ch := c.Sched.Policy != "seq"
			c.Sched = seq
			return ch
		})
	}
	add(func(c *Plan) bool {
		ch := false
		for _, s := range c.Steps {
			ch = ch || s.Sched.Policy != "seq"
			s.Sched = seq
		}
		return ch
	})
	out = append(out, drops(p, 0, func(p *Plan) *[]*Round { return &p.Rounds })...)
	out = append(out, drops(p, 1, func(p *Plan) *[]*BuildStep { return &p.Steps })...)
	out = append(out, drops(p, 0, func(p *Plan) *[]*Fault { return &p.Faults })...)
	for i := range p.Rounds {
		i := i
		out = append(out, drops(p, 0, func(p *Plan) *[]*ClientPlan { return &p.Rounds[i].Clients })...)
		out = append(out, drops(p, 0, func(p *Plan) *[]*Req { return &p.Rounds[i].Quiet })...)
		out = append(out, drops(p, 0, func(p *Plan) *[]*Fault { return &p.Rounds[i].Faults })...)
		for j := range p.Rounds[i].Edits {
			add(func(c *Plan) bool { dropEdits(c.Rounds[i], j); return true })
		}
		for j := range p.Rounds[i].Clients {
			j := j
			out = append(out, drops(p, 1, func(p *Plan) *[]*Req { return &p.Rounds[i].Clients[j].Reqs })...)
		}
	}
	for i := range p.Steps {
		i := i
		out = append(out, drops(p, 0, func(p *Plan) *[]*Fault { return &p.Steps[i].Faults })...)
		out = append(out, drops(p, 0, func(p *Plan) *[]int { return &p.Steps[i].Old })...)
		if p.Steps[i].Sched.Policy != "seq" {
			add(func(c *Plan) bool { c.Steps[i].Sched = seq; return true })
		}
		if p.Steps[i].Short > 0 {
			add(func(c *Plan) bool { c.Steps[i].Short = 0; return true })
		}
		if p.Steps[i].Zone != 0 {
			add(func(c *Plan) bool { c.Steps[i].Zone = 0; return true })
		}
		for k := range p.Steps[i].Env {
			add(func(c *Plan) bool { e := c.Steps[i].Env; c.Steps[i].Env = append(e[:k:k], e[k+1:]...); return true })
		}
		if p.Steps[i].Clock > 0 {
			add(func(c *Plan) bool { c.Steps[i].Clock = 0; return true })
		}
		if p.Steps[i].Tick > 0 {
			add(func(c *Plan) bool { c.Steps[i].Tick = 0; return true })
		}
	}
	for i := range p.Multi {
		add(func(c *Plan) bool {
			for k, j := range c.Multi {
				if k != i && j.Same == i {
					return false
				}
			}
			c.Multi = cut(c.Multi, i, i+1)
			for _, j := range c.Multi {
				if j.Same > i {
					j.Same--
				}
			}
			return len(c.Multi) > 0
		})
	}
	if p.Lazies != nil {
		out = append(out, drops(p, 1, func(p *Plan) *[][]*LazyOp { return &p.Lazies.Users })...)
		for i := range p.Lazies.Users {
			i := i
			out = append(out, drops(p, 0, func(p *Plan) *[]*LazyOp { return &p.Lazies.Users[i] })...)
		}
	}
	if p.Slow != nil {
		out = append(out, drops(p, 1, func(p *Plan) *[]*SlowJob { return &p.Slow.Jobs })...)
		for i := range p.Slow.Jobs {
			i := i
			out = append(out, drops(p, 0, func(p *Plan) *[]*Call { return &p.Slow.Jobs[i].Calls })...)
		}
		add(func(c *Plan) bool { ch := c.Slow.Requests > 1; c.Slow.Requests--; return ch })
	}
	if p.Reexec != nil {
		add(func(c *Plan) bool { ch := c.Reexec.Procs > 1; c.Reexec.Procs--; return ch })
		add(func(c *Plan) bool { ch := c.Reexec.Old > 0; c.Reexec.Old = 0; return ch })
		add(func(c *Plan) bool { ch := len(c.Reexec.Env) > 0; c.Reexec.Env = nil; return ch })
		add(func(c *Plan) bool {
			ch := c.Reexec.Install.Delay+c.Reexec.Run.Delay > 0
			c.Reexec.Install.Delay, c.Reexec.Run.Delay = 0, 0
			return ch
		})
	}
	// numbers that do not matter
	add(func(c *Plan) bool { ch := c.Short > 0; c.Short = 0; return ch })
	add(func(c *Plan) bool { ch := c.SlowMS > 0; c.SlowMS = 0; return ch })
	add(func(c *Plan) bool { ch := c.LazyMS > 0; c.LazyMS = 0; return ch })
	add(func(c *Plan) bool {
		ch := c.NetBuf > 0 && c.NetBuf != 65536
		c.NetBuf = 65536
		return ch
	})
	for i, rd := range p.Rounds {
		if rd.Gap > 0 {
			add(func(c *Plan) bool { c.Rounds[i].Gap = 0; return true })
		}
		for j, cl := range rd.Clients {
			if cl.Delay > 0 {
				add(func(c *Plan) bool { c.Rounds[i].Clients[j].Delay = 0; return true })
			}
			for k, rq := range cl.Reqs {
				if rq.Wait > 0 || rq.Keep {
					add(func(c *Plan) bool {
						x := c.Rounds[i].Clients[j].Reqs[k]
						x.Wait, x.Keep = 0, false
						return true
					})
				}
			}
		}
		for j, e := range rd.Edits {
			if e.Wait > 0 || e.Gap > 0 {
				add(func(c *Plan) bool { c.Rounds[i].Edits[j].Wait, c.Rounds[i].Edits[j].Gap = 0, 0; return true })
			}
		}
	}
	// documents: whole blocks nobody refers to
	if p.World != nil {
		var walk func(get func(p *Plan) *Sec)
		walk = func(get func(p *Plan) *Sec) {
			s := get(p)
			for b := range s.Blks {
				if !hasTarget(s.Blks[b]) {
					add(func(c *Plan) bool { x := get(c); x.Blks = cut(x.Blks, b, b+1); return true })
				}
			}
			for k := range s.Kids {
				if s.Kids[k].Sec != nil {
					walk(func(p *Plan) *Sec { return get(p).Kids[k].Sec })
				}
			}
		}
		for f := range p.World.Files {
			for v := range p.World.Files[f].Vars {
				walk(func(p *Plan) *Sec { return p.World.Files[f].Vars[v] })
			}
		}
	}
	return out
}

func hasTarget(b *Blk) bool {
	var in func(is []*Inl) bool
	in = func(is []*Inl) bool {
		for _, i := range is {
			if i.K == "tgt" || in(i.Kids) || in(i.More) {
				return true
			}
		}
		return false
	}
	for _, row := range b.Rows {
		for _, c := range row {
			if in(c) {
				return true
			}
		}
	}
	return b.Tag != ""
}

// scheds gives access to the schedules of a plan.
func scheds(p *Plan) []*Sched {
	if len(p.Steps) == 0 {
		return []*Sched{&p.Sched}
	}
	var out []*Sched
	for _, s := range p.Steps {
		out = append(out, &s.Sched)
	}
	return out
}

// simplerSched lists plans with fewer scheduling decisions.
func simplerSched(p *Plan) []*Plan {
	var out []*Plan
	for k, s := range scheds(p) {
		if s.Policy != "replay" {
			continue
		}
		out = append(out, drops(p, 0, func(p *Plan) *[]uint64 { return &scheds(p)[k].Preempts })...)
		out = append(out, drops(p, 0, func(p *Plan) *[][2]int { return &scheds(p)[k].Picks })...)
		if len(out) > 400 {
			out = out[:400]
		}
	}
	return out
}

func (d *driver) shrink(first *runOut, rule string) (*runOut, string) {
	best := first
	limit := time.Duration(envInt("SIM_SHRINK", 45)) * time.Second
	began := time.Now()
	tried, kept := 0, 0
	seen := map[string]bool{}
	over := func() bool { return time.Since(began) > limit }
	try := func(cands []*Plan) bool {
		var todo []*Plan
		for _, c := range cands {
			b, _ := json.Marshal(c)
			if !seen[string(b)] {
				seen[string(b)] = true
				todo = append(todo, c)
			}
		}
		for len(todo) > 0 && !over() {
			n := min(len(todo), d.procs)
			outs := make([]*runOut, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[i] = d.run(first.seed, todo[i], first.race, false)
				}()
			}
			wg.Wait()
			todo = todo[n:]
			tried += n
			for _, o := range outs {
				if hasRule(o.viols, rule) != nil {
					best = o
					kept++
					return true
				}
			}
		}
		return false
	}
	for !over() && try(simpler(best.plan)) {
	}
	// the schedule, as it was recorded
	if best.res != nil {
		c := clonePlan(best.plan)
		ok := true
		for i, s := range scheds(c) {
			if i < len(best.res.Rec) {
				*s = best.res.Rec[i]
			} else {
				ok = false
			}
		}
		if ok {
			o := d.run(first.seed, c, first.race, false)
			tried++
			if hasRule(o.viols, rule) != nil {
				best = o
				for !over() && try(simplerSched(best.plan)) {
				}
			}
		}
	}
	np, nk := 0, 0
	for _, s := range scheds(best.plan) {
		np += len(s.Preempts)
		nk += len(s.Picks)
	}
	return best, fmt.Sprintf("minimised in %d runs (%d steps kept, %.0f s): %d preemptions and %d other scheduling choices left", tried, kept, time.Since(began).Seconds(), np, nk)
}
