//go:build go1.22

package verifsim

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/vito/booklit"
	"github.com/vito/booklit/baselit"
	"github.com/vito/booklit/load"
)

// Reports about slow functions.

// Call is one function call in a document and what is inside it.
type Call struct {
	// sim-nap, sim-naq (take Dur), sim-wrap (Dur after what is inside), bold,
	// section, include-section (as long as what is inside), few (a call with too
	// few arguments, which fails at once), boldx (one with too many)
	Fn   string  `json:"fn"`
	Tall bool    `json:"tall,omitempty"` // the argument is on lines of its own
	Dur  int     `json:"dur_ms,omitempty"`
	Kids []*Call `json:"kids,omitempty"`
	Fail bool    `json:"fail,omitempty"`
	// so many bytes of other text in a paragraph above it, and on its line before it
	Above int `json:"above,omitempty"`
	Pad   int `json:"pad,omitempty"`
}

type SlowJob struct {
	Calls []*Call `json:"calls"`
	CRLF  bool    `json:"crlf,omitempty"`
	Wait  int     `json:"wait_ms,omitempty"`
	// the lines of calls are edited between two requests (serve)
	Edit bool `json:"edit,omitempty"`
}

type SlowPlan struct {
	Mode      string     `json:"mode"` // lib, build, serve
	Threshold int        `json:"threshold_ms"`
	Debug     bool       `json:"debug,omitempty"`
	Jobs      []*SlowJob `json:"jobs"`
	Requests  int        `json:"requests,omitempty"` // serve: one after the other
}

func init() {
	kinds["slow"] = []func(w *worker) bool{phaseSlow}
	plans["C11"] = planSlow
}

// slowWriter lays documents out and remembers where every call went.
type slowWriter struct {
	files map[string]*strings.Builder
	lines map[string]int
	n     int
	calls []*placed
	ids   map[string]*placed
	rev   bool
	edits []time.Duration // when the documents were edited
}

// at is what a document said at a time.
func (sw *slowWriter) at(file string, t time.Duration) string {
	n := 0
	for _, e := range sw.edits {
		if e <= t {
			n++
		}
	}
	return strings.ReplaceAll(sw.files[file].String(), "rev0 ", fmt.Sprintf("rev%d ", n))
}

type placed struct {
	c      *Call
	file   string
	line   int
	id     string
	total  int // how long it takes, as planned
	start  int // when it starts, relative to the job
	runs   bool
	actual []slowCall
}

func (p *placed) key() string {
	return fmt.Sprintf("%s:%d: slow invoke: \\%s", p.file, p.line, p.c.fn())
}

func (c *Call) fn() string {
	if c.Fn == "few" || c.Fn == "boldx" {
		return "bold"
	}
	return c.Fn
}

func (sw *slowWriter) emit(file, text string) {
	b := sw.files[file]
	if b == nil {
		b = &strings.Builder{}
		sw.files[file] = b
		sw.lines[file] = 1
	}
	b.WriteString(text)
	sw.lines[file] += strings.Count(text, "\n")
}

// around writes what stands around a call.
func (sw *slowWriter) around(c *Call, file, ind string) {
	if c.Above > 0 {
		sw.emit(file, strings.Repeat("filler ", c.Above/7+1)+"end\n\n"+ind)
	}
	if sw.rev && c.Fn != "section" && c.Fn != "include-section" {
		sw.emit(file, "rev0 ")
	}
	if c.Pad > 0 {
		sw.emit(file, strings.Repeat("before ", c.Pad/7+1))
	}
}

// put writes a call; at is when it starts. It returns when it ends, and whether
// the evaluation fails inside it.
func (sw *slowWriter) put(c *Call, file, ind string, at int, alive bool) (int, bool) {
	sw.n++
	p := &placed{c: c, file: file, line: sw.lines[file], id: fmt.Sprintf("n%dx%d", len(file), sw.n), start: at, runs: alive}
	sw.calls = append(sw.calls, p)
	sw.ids[p.id] = p
	fail := false
	end := at
	inside := func(f, ind string) {
		for _, k := range c.Kids {
			e, bad := sw.put(k, f, ind, end, alive && !fail)
			if !fail {
				end = e
			}
			if bad {
				fail = true
			}
		}
	}
	switch c.Fn {
	case "sim-nap", "sim-naq":
		end = at + c.Dur
		fail = c.Fail
		id := p.id
		if fail {
			id += "!"
		}
		sw.emit(file, fmt.Sprintf("\\%s{%s}", c.Fn, id))
	case "few":
		sw.emit(file, "\\bold")
		fail = true
	case "boldx":
		sw.emit(file, "\\bold{one}{two}")
		fail = true
	case "bold", "sim-wrap":
		sw.emit(file, "\\"+c.Fn+"{")
		if c.Tall {
			for _, k := range c.Kids {
				sw.emit(file, "\n"+ind+"  ")
				e, bad := sw.put(k, file, ind+"  ", end, alive && !fail)
				if !fail {
					end = e
				}
				fail = fail || bad
				sw.emit(file, "\n")
			}
			sw.emit(file, ind)
		} else {
			inside(file, ind)
		}
		sw.emit(file, "}")
		if c.Fn == "sim-wrap" {
			id := p.id
			if c.Fail {
				id += "!"
			}
			sw.emit(file, "{"+id+"}")
			if !fail {
				end += c.Dur
				fail = c.Fail
			}
		}
	case "section":
		sw.emit(file, "\\section{\n"+ind+"  \\title{s"+p.id+"}\n\n")
		for _, k := range c.Kids {
			sw.emit(file, ind+"  ")
			sw.around(k, file, ind+"  ")
			e, bad := sw.put(k, file, ind+"  ", end, alive && !fail)
			if !fail {
				end = e
			}
			fail = fail || bad
			sw.emit(file, "\n\n")
		}
		sw.emit(file, ind+"}")
	case "include-section":
		name := p.id + ".lit"
		sw.emit(file, "\\include-section{"+name+"}")
		f := filepath.Join(filepath.Dir(file), name)
		sw.emit(f, "\\title{t"+p.id+"}\n\n\\use-plugin{simplug}\n\n")
		for _, k := range c.Kids {
			e, bad := sw.put(k, f, "", end, alive && !fail)
			if !fail {
				end = e
			}
			fail = fail || bad
			sw.emit(f, "\n\n")
		}
	}
	p.total = end - at
	return end, fail
}

func (sw *slowWriter) doc(file string, calls []*Call) (int, bool) {
	sw.emit(file, "\\title{the title}{index}\n\n\\use-plugin{simplug}\n\n")
	at, fail := 0, false
	for _, c := range calls {
		sw.around(c, file, "")
		e, bad := sw.put(c, file, "", at, !fail)
		if !fail {
			at = e
		}
		fail = fail || bad
		sw.emit(file, "\n\n")
	}
	return at, fail
}

var napDur = map[string]*placed{}

func (p *simPlugin) nap(id string) (booklit.Content, error) {
	pl := napDur[strings.TrimSuffix(id, "!")]
	c := slowCall{arg: id, start: theSim.now()}
	theSim.pause(time.Duration(pl.c.Dur) * time.Millisecond)
	c.end = theSim.now()
	pl.actual = append(pl.actual, c)
	if pl.c.Fail {
		return nil, fmt.Errorf("napfailure %s", id)
	}
	return booklit.String(id), nil
}

func (p *simPlugin) SimWrap(con booklit.Content, id string) (booklit.Content, error) {
	after, err := p.nap(id)
	if err != nil {
		return nil, err
	}
	return booklit.Append(con, after), nil
}

func (p *simPlugin) SimNap(id string) (booklit.Content, error) { return p.nap(id) }
func (p *simPlugin) SimNaq(id string) (booklit.Content, error) { return p.nap(id) }

var (
	logLine = regexp.MustCompile(`^time="[^"]*" level=(\w+) msg="((?:[^"\\]|\\.)*)"(.*)$`)
	// (how the field is called is up to booklit)
	tookField = regexp.MustCompile(`=(\d[0-9a-zµ.]*s)\b`)
	ansi      = regexp.MustCompile("\x1b\\[[0-9;]*m")
)

type report struct {
	at   time.Duration
	what string // still, finished, fast
	key  string
	pos  int
	took string // the time it reports
}

func phaseSlow(w *worker) bool {
	s := w.start()
	sp := w.plan.Slow
	sws := make([]*slowWriter, len(sp.Jobs))
	fails := make([]bool, len(sp.Jobs))
	limit := progressLimit // beyond what the calls themselves take
	for k, j := range sp.Jobs {
		sws[k] = &slowWriter{files: map[string]*strings.Builder{}, lines: map[string]int{}, ids: map[string]*placed{}, n: k * 1000, rev: j.Edit}
		var takes int
		takes, fails[k] = sws[k].doc(fmt.Sprintf("src%d/root.lit", k), j.Calls)
		limit += time.Duration(takes*max(1, sp.Requests)+j.Wait) * time.Millisecond
		for id, p := range sws[k].ids {
			napDur[id] = p
		}
		raw(func() {
			for f, b := range sws[k].files {
				must(os.MkdirAll(filepath.Dir(f), 0o755))
				text := b.String()
				if j.CRLF {
					text = strings.ReplaceAll(text, "\n", "\r\n")
				}
				must(os.WriteFile(f, []byte(text), 0o644))
			}
		})
	}
	s.fs.faults = w.plan.Faults
	slack := 0
	for _, f := range w.plan.Faults {
		n := 1 + f.Count
		if f.Count < 0 {
			n = 40
		}
		slack += f.Delay * n
	}
	limit += time.Duration(slack) * time.Millisecond
	var a *actor
	starts := make([]time.Duration, len(sp.Jobs))
	times := 1
	switch sp.Mode {
	case "lib":
		a = s.newActor("lib", map[string]string{})
		a.keep = true
		var dones []*bool
		s.spawn(a, func() {
			if sp.Debug {
				logrus.SetLevel(logrus.DebugLevel)
			}
			for k, j := range sp.Jobs {
				k, j := k, j
				done := new(bool)
				dones = append(dones, done)
				go func() {
					s.yield(-8)
					defer func() { *done = true }()
					if j.Wait > 0 {
						s.sleep(time.Duration(j.Wait) * time.Millisecond)
					}
					starts[k] = s.now()
					proc := &load.Processor{SlowInvokeThreshold: time.Duration(sp.Threshold) * time.Millisecond}
					_, err := proc.LoadFile(fmt.Sprintf("src%d/root.lit", k), []booklit.PluginFactory{baselit.NewPlugin})
					raw(func() {
						if (err != nil) != fails[k] {
							w.violation("cause", "job %d ends with error %v", k, err)
						}
					})
				}()
			}
		})
		if !s.run(limit, func() bool { return len(dones) == len(sp.Jobs) && allDone(dones) }) {
			w.violation("progress", "loading never ends (%s)", s.blockedList())
			return false
		}
	default:
		args := []string{"booklit", "--in", "src0/root.lit", "--out", "out", "--slow-invoke-threshold", fmt.Sprintf("%dms", sp.Threshold)}
		if sp.Debug {
			args = append(args, "--debug")
		}
		if sp.Mode == "serve" {
			args = append(args, "--serve", "8080")
		}
		a = s.command("booklit", args)
		if sp.Mode == "build" {
			if !s.run(limit, func() bool { return a.exited }) {
				w.violation("progress", "the build never ends")
				return false
			}
			if (a.exitCode != 0) != fails[0] {
				w.violation("cause", "the build ends with exit status %d: %s", a.exitCode, tail(a.stderr))
			}
			break
		}
		a.keep = true
		times = sp.Requests
		r := &serverRun{w: w, s: s, p: w.plan}
		var reqs []*Req
		for i := 0; i < times; i++ {
			reqs = append(reqs, &Req{Path: "/"})
		}
		limit += time.Duration(times*2) * time.Second
		done := r.ask("client", reqs, 0, func(an *answer) {
			if sw := sws[0]; sw.rev {
				s.sleep(time.Second)
				sw.edits = append(sw.edits, s.now())
				raw(func() {
					for f := range sw.files {
						text := sw.at(f, s.now())
						if sp.Jobs[0].CRLF {
							text = strings.ReplaceAll(text, "\n", "\r\n")
						}
						must(os.WriteFile(f, []byte(text), 0o644))
						must(os.Chtimes(f, time.Now(), time.Now()))
					}
				})
				s.sleep(time.Second)
			}
			if !an.complete || an.status != 200 && !fails[0] || an.status != 500 && fails[0] {
				w.violation("answer", "GET / answered with status %d", an.status)
			}
		})
		if !s.run(limit, func() bool { return *done }) {
			w.violation("progress", "a request is never answered")
			return false
		}
	}
	// late timers would report now
	s.fs.faults = nil
	s.run(10*time.Second+time.Duration(sp.Threshold)*time.Millisecond, func() bool { return false })
	judgeSlow(w, a, sws, starts, times, slack)
	return false
}

func judgeSlow(w *worker, a *actor, sws []*slowWriter, starts []time.Duration, times, slack int) {
	sp := w.plan.Slow
	type line struct {
		at   time.Duration
		text string
	}
	var lines []line
	off := 0
	text := string(a.stderr)
	for wi := 0; off < len(text); {
		end := strings.IndexByte(text[off:], '\n')
		if end < 0 {
			end = len(text) - off
		}
		for wi+1 < len(a.errAt) && a.errAt[wi+1].off <= off {
			wi++
		}
		lines = append(lines, line{a.errAt[wi].at, text[off : off+end]})
		off += end + 1
	}
	reports := map[string][]report{}
	src := func(f string, at time.Duration) string {
		for _, sw := range sws {
			if sw.files[f] != nil {
				return sw.at(f, at)
			}
		}
		return ""
	}
	known := map[string]bool{}
	for _, sw := range sws {
		for _, p := range sw.calls {
			known[p.key()] = true
		}
	}
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		m := logLine.FindStringSubmatch(l.text)
		if m == nil {
			continue
		}
		msg := strings.ReplaceAll(m[2], `\\`, `\`)
		r := report{at: l.at, pos: i}
		if tm := tookField.FindStringSubmatch(m[3]); tm != nil {
			r.took = tm[1]
		}
		switch {
		case strings.HasSuffix(msg, " (still running)"):
			r.what, r.key = "still", strings.TrimSuffix(msg, " (still running)")
			if m[1] != "warning" {
				w.violation("report", "%q is logged at level %s", msg, m[1])
			}
		case strings.HasSuffix(msg, " (finished)"):
			r.what, r.key = "finished", strings.TrimSuffix(msg, " (finished)")
		case strings.Contains(msg, "fast invoke:"):
			r.what, r.key = "fast", strings.Replace(msg, "fast invoke:", "slow invoke:", 1)
		default:
			continue
		}
		reports[r.key] = append(reports[r.key], r)
		if r.what == "still" {
			// the line in question follows, with nothing in between
			var f string
			var n int
			if j := strings.IndexByte(r.key, ':'); j > 0 {
				f = r.key[:j]
				fmt.Sscanf(r.key[j+1:], "%d", &n)
			}
			sl := strings.Split(src(f, l.at), "\n")
			want := ""
			if n > 0 && n <= len(sl) {
				want = fmt.Sprintf("% 4d| %s", n, sl[n-1])
			}
			// (other log messages may come in between, other such reports may not)
			var next []string
			for k := i + 1; k < len(lines) && len(next) < 2; k++ {
				if lm := logLine.FindStringSubmatch(lines[k].text); lm != nil && !strings.Contains(lm[2], " invoke: ") {
					continue
				}
				next = append(next, lines[k].text)
			}
			if len(next) < 2 || next[0] != want || strings.Trim(ansi.ReplaceAllString(next[1], ""), " ^") != "" {
				w.violation("report", "the report %q is followed by %q instead of the line in question, %q", msg, next, want)
			} else if marks := ansi.ReplaceAllString(next[1], ""); strings.Contains(marks, "^") {
				// what is marked is the call
				i, j := strings.Index(marks, "^"), strings.LastIndex(marks, "^")+1
				_, fn, _ := strings.Cut(r.key, "slow invoke: ")
				if j > len(want) || want[i:j] != fn {
					w.violation("report", "the report %q marks the wrong part of %q: %q", msg, want, marks)
				}
			}
		}
	}
	th := sp.Threshold
	done := map[string]bool{}
	for k, sw := range sws {
		for _, p := range sw.calls {
			if done[p.key()] {
				continue
			}
			done[p.key()] = true
			var same []*placed
			for _, q := range sw.calls {
				if q.key() == p.key() && q.runs {
					same = append(same, q)
				}
			}
			rs := reports[p.key()]
			count := map[string]int{}
			for _, r := range rs {
				count[r.what]++
			}
			lo, hi := 0, 0 // how many of them are surely, perhaps, slow
			for _, q := range same {
				if th > 0 && q.total > th {
					lo++
				}
				if th > 0 && q.total+slack >= th {
					hi++
				}
			}
			lo *= times
			hi *= times
			if lo > 0 {
				theSim.probe("slow-call")
			}
			if slack > 0 {
				// reports may have to wait for the terminal until the function is over
				if count["still"] > hi {
					w.violation("report", "%s: %d reports that it is still running, at most %d expected", p.key(), count["still"], hi)
				}
			} else if count["still"] < lo || count["still"] > hi {
				w.violation("report", "%s takes %d ms (%d calls) with a threshold of %d ms: %d reports that it is still running, expected %d..%d", p.key(), p.total, len(same)*times, th, count["still"], lo, hi)
			}
			if count["finished"] < lo || count["finished"] > hi {
				w.violation("report", "%s takes %d ms (%d calls) with a threshold of %d ms: %d reports that it has finished, expected %d..%d", p.key(), p.total, len(same)*times, th, count["finished"], lo, hi)
			}
			early := 0 // calls that fail without the function being called
			for _, q := range same {
				if q.c.Fn == "few" || q.c.Fn == "boldx" {
					early += times
				}
			}
			if n := count["finished"] + count["fast"]; sp.Debug && th > 0 && (n > len(same)*times || n < len(same)*times-early) {
				w.violation("report", "%s: %d calls, %d reported as fast and %d as slow and finished", p.key(), len(same)*times, count["fast"], count["finished"])
			}
			if (th == 0 || !sp.Debug) && count["fast"] > 0 {
				w.violation("report", "%s: unasked-for reports of fast calls", p.key())
			}
			if len(same) != 1 {
				continue
			}
			for _, r := range rs {
				d, err := time.ParseDuration(r.took)
				real := time.Duration(p.total) * time.Millisecond
				if r.what == "still" {
					real = time.Duration(th) * time.Millisecond
				}
				if err != nil {
					w.violation("report", "%s (%s): no time is given", p.key(), r.what)
				} else if d < real || slack == 0 && d > real {
					w.violation("report", "%s (%s): a time of %s is given, but it was %s", p.key(), r.what, d, real)
				}
			}
			// order and times
			running := 0
			fin := 0
			for _, r := range rs {
				switch r.what {
				case "still":
					running++
					if (times == 1 || slack == 0 && p.total > th) && (running > fin+1 || fin >= running) {
						w.violation("late", "%s: reported as still running after it was reported as finished", p.key())
					}
					if sp.Mode == "lib" {
						at := starts[k] + time.Duration(p.start+th)*time.Millisecond
						end := starts[k] + time.Duration(p.start+p.total)*time.Millisecond
						if r.at < at {
							w.violation("early", "%s: reported as still running at %s, %s before the threshold is reached", p.key(), r.at, at-r.at)
						}
						if slack == 0 && r.at > at {
							w.violation("late", "%s: reported as still running at %s, %s after the threshold was reached", p.key(), r.at, r.at-at)
						}
						if slack == 0 && r.at > end {
							w.violation("late", "%s: reported as still running at %s, but it returned at %s", p.key(), r.at, end)
						}
					}
				case "finished":
					fin++
					if running < fin && slack == 0 && p.total > th {
						w.violation("late", "%s: reported as finished before it was reported as still running", p.key())
					}
					if n := len(p.actual); n > 0 && n >= fin && r.at < p.actual[fin-1].end {
						w.violation("early", "%s: reported as finished at %s, but it returned at %s", p.key(), r.at, p.actual[fin-1].end)
					}
				}
			}
		}
	}
	for _, key := range sortedKeys(reports) {
		if !known[key] && slack == 0 && reports[key][0].what == "still" {
			w.violation("report", "a report about %s, which does not take any time", key)
		}
	}
}

func genCalls(r *prng, th, depth, n int) []*Call {
	var out []*Call
	durs := []int{0, th / 3, th - 1, th + 1, th * 2, th*3 + 7, th, th/2 + 1}
	dur := func() int { return max(0, pick(r, durs)) }
	for i := 1 + r.n(n); i > 0; i-- {
		c := &Call{Fn: pick(r, []string{"sim-nap", "sim-nap", "sim-naq"}), Dur: dur()}
		if depth > 0 && r.p(0.4) {
			c = &Call{Fn: pick(r, []string{"section", "include-section"})}
			c.Kids = genCalls(r, th, depth-1, 3)
		} else if r.p(0.35) {
			c = genWrap(r, dur, 2)
		} else if r.p(0.06) {
			c.Fail = true
		} else if r.p(0.03) {
			c = &Call{Fn: pick(r, []string{"few", "boldx"})}
		}
		if r.p(0.12) {
			c.Above = pick(r, []int{50, 3000, 4088, 4089, 4096, 9000, 20000})
		}
		if r.p(0.06) && c.Fn != "section" && c.Fn != "include-section" {
			c.Pad = pick(r, []int{50, 3000, 4090, 9000})
		}
		out = append(out, c)
	}
	return out
}

// genWrap makes a call with calls in its arguments.
func genWrap(r *prng, dur func() int, depth int) *Call {
	c := &Call{Fn: pick(r, []string{"bold", "sim-wrap", "sim-wrap"}), Tall: r.p(0.6)}
	if c.Fn == "sim-wrap" {
		c.Dur = dur()
		c.Fail = r.p(0.05)
	}
	fns := []string{"sim-nap", "sim-naq"}
	if !c.Tall {
		fns = fns[:1+r.n(2)]
	}
	for _, fn := range fns {
		k := &Call{Fn: fn, Dur: dur(), Fail: r.p(0.07)}
		if c.Tall && depth > 0 && r.p(0.25) {
			k = genWrap(r, dur, depth-1)
		} else if r.p(0.04) {
			k = &Call{Fn: pick(r, []string{"few", "boldx"})}
		}
		c.Kids = append(c.Kids, k)
	}
	return c
}

func planSlow(r *prng, p *Plan) {
	p.Kind = "slow"
	sp := &SlowPlan{Mode: pick(r, []string{"lib", "lib", "lib", "build", "serve"}), Debug: r.p(0.3)}
	sp.Threshold = pick(r, []int{1, 10, 100, 5000, 5000})
	n := 1
	if sp.Mode == "lib" {
		n = 1 + r.n(4)
	}
	for k := 0; k < n; k++ {
		j := &SlowJob{Calls: genCalls(r, sp.Threshold, 2, 4), CRLF: r.p(0.15)}
		if r.p(0.4) {
			j.Wait = r.n(sp.Threshold*2 + 1)
		}
		sp.Jobs = append(sp.Jobs, j)
	}
	sp.Requests = 1 + r.n(3)
	edit := r.p(0.5)
	if r.p(0.07) {
		sp.Threshold = 0
	}
	if r.p(0.3) {
		for k := 1 + r.n(3); k > 0; k-- {
			p.Faults = append(p.Faults, &Fault{Op: "write", Path: "stderr", Nth: 1 + r.n(12), Count: pick(r, []int{0, 0, 2, 5}), Mode: "delay", Delay: 1 + r.n(sp.Threshold*2+2)})
		}
	} else if sp.Mode == "serve" {
		sp.Jobs[0].Edit = edit
	}
	p.Slow = sp
}
