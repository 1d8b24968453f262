//go:build go1.22

package verifsim

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

const serverAddr = ":8080"

type refPage struct {
	St   State  `json:"st"`
	Page string `json:"page"`
	Body []byte `json:"body"`
}

// quietAnswer is one given while nothing else was going on.
type quietAnswer struct {
	St     State             `json:"st"`
	Req    Req               `json:"req"`
	Status int               `json:"status"`
	Header map[string]string `json:"header"`
	Body   []byte            `json:"body"`
}

type serverRun struct {
	w     *worker
	s     *sim
	p     *Plan
	ed    *editor
	srv   *actor
	cache map[string]*Model
	refs  []refPage
	calm  []quietAnswer
	fired []int // events at which a fault struck
	wait  int
	badN  int
	agent string
	kept  map[string]*answer
}

func (r *serverRun) model(st State) *Model {
	k := st.key()
	if m := r.cache[k]; m != nil {
		return m
	}
	m := r.p.World.model(st.clone(), false, "html")
	r.cache[k] = m
	return m
}

// want is what one request must be answered with in one state of the files.
type want struct {
	status int
	page   *Page
	body   string   // static files
	mark   []string // errors: one of these has to be named
	list   []string // a directory: names of the files in it, and ...
	not    []string // names of others
	drop   bool     // a panicking function: the connection may just be dropped
}

func (r *serverRun) want(st State, path string) want {
	if path == "/" {
		path = "/index.html"
	}
	if strings.HasSuffix(path, ".html") {
		m := r.model(st)
		if m.Err != "" {
			return want{status: 500, mark: []string{m.Err}, drop: strings.HasPrefix(m.Err, "panicking")}
		}
		if sec := m.find(strings.TrimSuffix(path[1:], ".html")); sec != nil {
			if r.p.Cmd.Templates && len(m.TErr) > 0 {
				return want{status: 500, mark: m.TErr}
			}
			pg := m.page(sec)
			if pg.Err != "" {
				return want{status: 500, mark: []string{pg.Err}}
			}
			return want{status: 200, page: pg}
		}
	}
	if strings.HasSuffix(path, "/") {
		wt := want{status: 404}
		for i, sf := range r.p.World.Statics {
			if name, ok := strings.CutPrefix("/"+sf.Name, path); ok && st.S[i] >= 0 {
				wt.status = 200
				wt.list = append(wt.list, name)
			} else if ok {
				wt.not = append(wt.not, name)
			}
		}
		return wt
	}
	for i, sf := range r.p.World.Statics {
		if "/"+sf.Name == path && st.S[i] >= 0 {
			return want{status: 200, body: r.p.World.static(i, st.S[i])}
		}
	}
	return want{status: 404}
}

// names reports whether the answer contains one of the marks.
func names(body []byte, marks []string) bool {
	for _, m := range marks {
		if strings.Contains(string(body), m) {
			return true
		}
	}
	return false
}

// judge compares an answer with what one state calls for; "" means it fits.
func (r *serverRun) judge(a *answer, st State) string {
	wt := r.want(st, a.req.Path)
	head := a.req.Method == "HEAD"
	if !a.complete {
		if wt.drop && a.status == 0 {
			return ""
		}
		return fmt.Sprintf("no complete answer (status %d, %d bytes, error %q)", a.status, len(a.body), a.err)
	}
	if wt.drop && a.status == 500 && (head || names(a.body, wt.mark)) {
		return ""
	}
	if wt.drop {
		return fmt.Sprintf("status %d although the function %s panics", a.status, wt.mark)
	}
	if len(wt.not) > 0 && len(wt.list) == 0 && (a.status == 200 || a.status == 404) {
		return "" // an empty directory may have been left, or not
	}
	if a.status != wt.status {
		return fmt.Sprintf("status %d, expected %d (%s); answer: %s", a.status, wt.status, wt.mark, excerpt(a.body))
	}
	if a.req.Method == "HEAD" {
		return ""
	}
	switch {
	case wt.status == 404:
		return ""
	case wt.status == 500:
		if !names(a.body, wt.mark) {
			return fmt.Sprintf("the error page does not say any of %q: %s", wt.mark, excerpt(a.body))
		}
		if !bytes.HasSuffix(bytes.TrimSpace(a.body), []byte("</html>")) {
			return "the error page is cut short: " + excerpt(a.body)
		}
	case wt.page != nil:
		if d := diffItems(extractHTML(a.body), wt.page.Items); d != "" {
			return d
		}
		if !bytes.HasSuffix(bytes.TrimSpace(a.body), []byte("</html>")) {
			return "the page is cut short"
		}
	case wt.list != nil:
		for _, n := range wt.list {
			if !bytes.Contains(a.body, []byte(">"+n+"<")) {
				return "the directory listing does not show " + n + ": " + excerpt(a.body)
			}
		}
		for _, n := range wt.not {
			if bytes.Contains(a.body, []byte(">"+n+"<")) {
				return "the directory listing shows " + n + ", which is gone: " + excerpt(a.body)
			}
		}
	default:
		if string(a.body) != wt.body {
			return "a file from the output directory was not served as it is: " + excerpt(a.body)
		}
	}
	return ""
}

func excerpt(b []byte) string {
	s := string(b)
	if i := strings.LastIndex(s, "on fire"); i >= 0 {
		s = s[i:]
	}
	s = spaces.ReplaceAllString(s, " ")
	if len(s) > 700 {
		s = s[:200] + " ... " + s[len(s)-500:]
	}
	return s
}

var errTexts = []string{"input/output error", "too many open files", "permission denied", "cannot allocate memory",
	"stale NFS file handle", "stale file handle", "no space left", "operation not permitted", "no such file",
	"not a directory", "connection timed out", "too many levels of symbolic links"}

// check judges an answer given while files may have been changing.
func (r *serverRun) check(rule string, a *answer) {
	if a.req.Mode == "cut" || a.req.Mode == "abort" || a.req.Mode == "garbage" || a.req.Mode == "leave" {
		return
	}
	w := r.p.World
	anyTorn := false
	sets := map[string][]int{}
	states := []State{r.ed.st.clone()}
	product := func(what string, n int) {
		for i := 0; i < n; i++ {
			vs, torn := r.ed.live(what, i, a.sent, a.done)
			anyTorn = anyTorn || torn && what != "s"
			sets[fmt.Sprint(what, i)] = vs
			var next []State
			for _, st := range states {
				for _, v := range vs {
					c := st.clone()
					switch what {
					case "f":
						c.F[i] = v
					case "t":
						c.T[i] = v
					default:
						c.S[i] = v
					}
					next = append(next, c)
				}
			}
			if len(next) > 0 && len(next) <= 200 {
				states = next
			}
		}
	}
	product("f", len(w.Files))
	product("t", len(w.Tmpls))
	if a.req.Path != "/" && !strings.HasSuffix(a.req.Path, ".html") {
		product("s", len(w.Statics))
		for i := range w.Statics {
			if _, torn := r.ed.live("s", i, a.sent, a.done); torn && "/"+w.Statics[i].Name == a.req.Path {
				return
			}
		}
	}
	faulted := false
	for _, e := range r.fired {
		if e >= a.sent && e <= a.done {
			faulted = true
		}
	}
	var why string
	for _, st := range states {
		d := r.judge(a, st)
		if d == "" {
			if a.status == 500 {
				r.s.probe("defect-reported")
			}
			return
		}
		if why == "" {
			why = d
		} else if len(why) < 900 {
			why += " / OR: " + d
		}
	}
	if faulted {
		// a fault struck while this request was served: it may fail, but then it has
		// to say so
		html := a.req.Path == "/" || strings.HasSuffix(a.req.Path, ".html")
		for _, st := range states {
			// not a page: looked for among the static files
			html = html && r.want(st, a.req.Path).status != 404
		}
		if !html && (!a.complete || a.status != 200) {
			return
		}
		if html && a.complete && a.status == 500 {
			if a.req.Method == "HEAD" {
				return
			}
			for _, t := range errTexts {
				if strings.Contains(string(a.body), t) {
					return
				}
			}
			why += " / OR: an I/O error struck, and the error page names neither it nor a defect of the documents"
		}
	}
	if a.complete && a.status == 500 {
		// a template deleted between being listed and being read
		for i, t := range w.Tmpls {
			vs := sets[fmt.Sprint("t", i)]
			for _, v := range vs {
				if v < 0 && len(vs) > 1 && (a.req.Method == "HEAD" || strings.Contains(string(a.body), t.Name+".tmpl")) {
					return
				}
			}
		}
	}
	if anyTorn {
		if a.complete && (a.status == 500 || a.status == 404) {
			return
		}
		if a.complete && a.status == 301 && strings.HasSuffix(a.req.Path, "/index.html") {
			return // no such page for the moment, and that is what the file server says about such names
		}
		if a.complete && a.status == 200 {
			if bad := r.deadTokens(a, sets); bad == "" {
				return
			} else {
				why = bad
			}
		}
	}
	r.w.violation(rule, "GET %s by %s (sent at event %d, answered at %d, %d possible states): %s", a.req.Path, a.client, a.sent, a.done, len(states), why)
}

// deadTokens looks for words of versions nobody could have read at the time.
func (r *serverRun) deadTokens(a *answer, sets map[string][]int) string {
	ok := func(what string, i, v int) bool {
		for _, sp := range r.ed.hist[fmt.Sprint(what, i)] {
			if sp.v == v && sp.from <= a.done && (sp.to == 0 || sp.to >= a.sent) {
				return true
			}
		}
		return false
	}
	for _, m := range anyTok.FindAllSubmatch(a.body, -1) {
		var f, v int
		fmt.Sscan(string(m[1]), &f)
		fmt.Sscan(string(m[2]), &v)
		if !ok("f", f, v) {
			return fmt.Sprintf("version %d of %s was no longer there", v, r.p.World.Files[f].Path)
		}
	}
	return ""
}

func (r *serverRun) clientActor(name string, fn func(c *client)) (*actor, *bool) {
	done := new(bool)
	a := r.s.newActor(name, map[string]string{})
	r.s.spawn(a, func() {
		defer quiet()()
		fn(&client{s: r.s, name: name, kept: r.kept, agent: r.agent})
		*done = true
	})
	return a, done
}

// ask performs requests one after the other on behalf of a client.
func (r *serverRun) ask(name string, reqs []*Req, delay int, each func(a *answer)) *bool {
	_, done := r.clientActor(name, func(c *client) {
		if delay > 0 {
			r.s.sleep(time.Duration(delay) * time.Millisecond)
		}
		for _, q := range reqs {
			if q.Wait > 0 {
				r.s.sleep(time.Duration(q.Wait) * time.Millisecond)
			}
			a := c.do(serverAddr, *q)
			if a.done == 0 {
				a.done = r.s.event(name, "gave up "+q.Path)
				a.doneAt = r.s.now()
			}
			each(a)
		}
		if c.conn != nil {
			_ = c.conn.Close()
		}
	})
	return done
}

const progressLimit = time.Hour

// limit is the time within which everything has to have been answered, which
// includes what the functions take.
func (p *Plan) limit() time.Duration {
	return progressLimit * time.Duration(1+(p.SlowMS+p.LazyMS)/7000)
}

func phaseServe(w *worker) bool {
	s := w.start()
	p := w.plan
	r := &serverRun{w: w, s: s, p: p, cache: map[string]*Model{}, kept: map[string]*answer{}}
	r.ed = newEditor(s, p.World, p.Init)
	raw(func() { must(os.MkdirAll("out", 0o755)); must(os.MkdirAll("templates", 0o755)) })
	r.ed.init()
	s.fs.onFault = func(n int) { r.fired = append(r.fired, n) }
	cmd := p.Cmd
	cmd.Serve, cmd.Out = true, true
	r.srv = s.command("server", cmd.args(p.World))
	r.srv.keep = true
	var background []*bool
	pagesSeen := map[string]int{}
	for k, rd := range p.Rounds {
		if rd.Gap > 0 {
			s.run(time.Duration(rd.Gap)*time.Millisecond, func() bool { return false })
		}
		s.fs.faults = rd.Faults
		for _, f := range rd.Faults {
			f.seen, f.fired = 0, 0
		}
		s.fs.edits = func(i int) {
			if i < len(rd.Edits) {
				r.ed.do(rd.Edits[i], false)
			}
		}
		if rd.Strict {
			if !r.strict(k, rd) {
				return false
			}
			continue
		}
		var waitFor []*bool
		var asked []*answer
		if len(rd.Edits) > 0 {
			var mine []*Edit
			for _, e := range rd.Edits {
				if !e.Fault {
					mine = append(mine, e)
				}
			}
			_, done := r.clientActor(fmt.Sprintf("editor%d", k), func(*client) {
				for _, e := range mine {
					r.ed.do(e, true)
				}
			})
			waitFor = append(waitFor, done)
		}
		for _, c := range rd.Clients {
			name := fmt.Sprintf("%s.%d", c.Name, k)
			bad := c.Bad
			if bad {
				s.probe("bad-client")
			}
			done := r.ask(name, c.Reqs, c.Delay, func(a *answer) {
				if !bad {
					asked = append(asked, a)
				}
			})
			if bad {
				background = append(background, done)
			} else {
				waitFor = append(waitFor, done)
			}
		}
		began := s.now()
		if !s.run(p.limit(), func() bool { return allDone(waitFor) }) {
			if s.overrun {
				return false
			}
			w.violation("progress", "round %d: after %s of simulated time well-behaved clients are still waiting for an answer (waiting inside: %s)", k, s.now()-began, s.blockedList())
			return false
		}
		s.fs.faults = nil
		for i, a := range asked {
			r.check("answer", a)
			for _, b := range asked[:i] {
				if a.client != b.client && a.sent < b.done && b.sent < a.done {
					s.probe("overlap")
				}
			}
		}
		if r.dead() {
			return false
		}
		var quiet []*answer
		began = s.now()
		done := r.ask(fmt.Sprintf("quiet%d", k), rd.Quiet, 0, func(a *answer) { quiet = append(quiet, a) })
		if !s.run(p.limit(), func() bool { return *done }) {
			if s.overrun {
				return false
			}
			w.violation("progress", "round %d: a single client got no answer for %s of simulated time, with nothing else going on (waiting inside: %s)", k, s.now()-began, s.blockedList())
			return false
		}
		for _, a := range quiet {
			if d := r.judge(a, r.ed.st); d != "" {
				w.violation("quiet", "round %d: GET %s with nothing changing: %s", k, a.req.Path, d)
			} else {
				s.probe("settled")
				if a.status == 500 {
					s.probe("defect-reported")
				}
				wt := r.want(r.ed.st, a.req.Path)
				if a.complete && !wt.drop && !a.again && (a.req.Path == "/" || !strings.HasSuffix(a.req.Path, "/")) && len(a.body) < 100000 {
					r.calm = append(r.calm, quietAnswer{r.ed.st.clone(), a.req, a.status, a.header, a.body})
				}
				if m := r.model(r.ed.st); a.status == 200 && a.complete && a.req.Method == "" {
					tag := strings.TrimSuffix(strings.TrimPrefix(a.req.Path, "/"), ".html")
					if a.req.Path == "/" {
						tag = "index"
					}
					if sec := m.find(tag); sec != nil && sec.owner() == sec && sec.tags[0].name == tag && pagesSeen[r.ed.st.key()] < 3 {
						pagesSeen[r.ed.st.key()]++
						r.refs = append(r.refs, refPage{r.ed.st.clone(), tag, a.body})
					}
				}
			}
		}
		if r.dead() {
			return false
		}
	}
	if len(background) == 0 || allDone(background) {
		// once the requests that were given up have come to their end, delayed
		// reads and all, whatever was opened has to be closed
		s.fs.faults = nil
		s.run(10*time.Minute, func() bool { return false })
		if l := s.fs.leaked(r.srv); len(l) > 0 {
			w.violation("handles", "with no request in flight the server still holds open: %s", strings.Join(l, " "))
		}
	}
	if p.Race {
		w.put("race", raceErrs())
	}
	if len(w.c.Result.Violations) > 0 {
		return false
	}
	sort.SliceStable(r.refs, func(i, j int) bool { return r.refs[i].St.key() < r.refs[j].St.key() })
	w.put("refs", r.refs)
	w.put("calm", r.calm)
	return len(r.refs)+len(r.calm) > 0 && !p.Race && p.Prop != "C09"
}

// strict performs a round in which every document is replaced, and then one
// request made while faults strike.
func (r *serverRun) strict(k int, rd *Round) bool {
	s, w, p := r.s, r.w, r.p
	faults := s.fs.faults
	s.fs.faults = nil
	_, done := r.clientActor(fmt.Sprintf("editor%d", k), func(*client) {
		for _, e := range rd.Edits {
			if !e.Fault {
				r.ed.do(e, true)
			}
		}
	})
	if !s.run(p.limit(), func() bool { return *done }) {
		return false
	}
	s.fs.faults = faults
	s.fs.track, s.fs.variant = map[string]*tracked{}, r.ed.variantAt
	var a *answer
	done = r.ask(fmt.Sprintf("strict%d", k), rd.Quiet[:1], 0, func(x *answer) { a = x })
	if !s.run(p.limit(), func() bool { return *done }) {
		if !s.overrun {
			w.violation("progress", "round %d: a single client got no answer (waiting inside: %s)", k, s.blockedList())
		}
		return false
	}
	states, errs, ok := r.ed.loaded(a.sent)
	s.fs.track, s.fs.faults = nil, nil
	if r.dead() {
		return false
	}
	if !ok {
		return true
	}
	why := ""
	for _, st := range states {
		d := r.judge(a, st)
		if d == "" {
			if a.status == 500 {
				s.probe("defect-reported")
			}
			return true
		}
		if why == "" {
			why = d
		}
	}
	if a.complete && a.status == 500 && len(errs) > 0 && (a.req.Method == "HEAD" || names(a.body, errs)) {
		return true
	}
	w.violation("cause", "round %d: GET %s, with documents changing or failing while it is answered (%d states can have been loaded, errors while loading: %q): %s", k, a.req.Path, len(states), errs, why)
	return true
}

func (r *serverRun) dead() bool {
	if r.srv.main && !r.srv.dead || r.srv.exited {
		r.w.violation("died", "the server stopped: exit %d %s %s", r.srv.exitCode, r.srv.panicked, tail(r.srv.stderr))
		return true
	}
	return false
}

func tail(b []byte) string {
	if len(b) > 600 {
		b = b[len(b)-600:]
	}
	return string(b)
}

func allDone(ds []*bool) bool {
	for _, d := range ds {
		if !*d {
			return false
		}
	}
	return true
}

// phaseServeRef builds some of the states the server was asked about from
// nothing, in a fresh process without faults, and compares whole pages.
func phaseServeRef(w *worker) bool {
	var refs []refPage
	w.get("refs", &refs)
	p := *w.plan
	p.Sched = Sched{Policy: "seq", Seed: p.Seed + 1}
	p.Short, p.SlowMS, p.LazyMS = 0, 0, 0
	w.plan = &p
	s := w.start()
	freshServer(s, w, p.World, p.Cmd)
	states := 0
	for i := 0; i < len(refs); {
		j := i
		for j < len(refs) && refs[j].St.key() == refs[i].St.key() {
			j++
		}
		group := refs[i:j]
		i = j
		if states++; states > 4 {
			break
		}
		a, pages := coldBuild(s, w, p.World, group[0].St, p.Cmd)
		if a == nil || a.exitCode != 0 {
			continue
		}
		for _, g := range group {
			b, ok := pages[g.Page+".html"]
			if ok && !bytes.Equal(b, g.Body) {
				w.violation("cold", "the server's page %s differs from a fresh build of the same files: %s", g.Page, firstDiff(g.Body, b))
			}
		}
	}
	return false
}

// freshServer starts a server on the files of one state and asks it what the
// other one was asked.
func freshServer(s *sim, w *worker, wd *World, cmd CmdPlan) {
	var calm []quietAnswer
	w.get("calm", &calm)
	if len(calm) == 0 {
		return
	}
	// the state after the most changes, or, better still, a defective one
	best := len(calm) - 1
	for i, c := range calm {
		if c.Status == 500 {
			best = i
		}
	}
	key := calm[best].St.key()
	emptyDirs(w)
	ed := newEditor(s, wd, calm[best].St)
	ed.init()
	cmd.Serve, cmd.Out = true, true
	srv := s.command("fresh", cmd.args(wd))
	srv.keep = true
	var was []quietAnswer
	for _, c := range calm {
		if c.St.key() == key && len(was) < 8 {
			was = append(was, c)
		}
	}
	done := false
	a := s.newActor("asker", map[string]string{})
	s.spawn(a, func() {
		defer quiet()()
		c := &client{s: s, name: "asker"}
		for _, q := range was {
			q.Req.Keep = false
			x := c.do(serverAddr, q.Req)
			what := fmt.Sprintf("GET %s with nothing changing: a freshly started server on the same files", q.Req.Path)
			if x.status != q.Status || !x.complete {
				w.violation("fresh", "%s answers %d, not %d", what, x.status, q.Status)
			} else if !bytes.Equal(x.body, q.Body) {
				w.violation("fresh", "%s answers something else: %s", what, firstDiff(q.Body, x.body))
			} else if d := diffHeader(q.Header, x.header); d != "" {
				w.violation("fresh", "%s sends other headers: %s", what, d)
			}
		}
		done = true
	})
	s.run(progressLimit, func() bool { return done })
	s.kill(srv, 137)
}

// diffHeader compares what an answer says about itself, but for times and the
// connection.
func diffHeader(got, want map[string]string) string {
	for _, k := range []string{"date", "last-modified", "etag", "connection", "keep-alive", "transfer-encoding", "content-length"} {
		delete(got, k)
		delete(want, k)
	}
	for _, k := range append(sortedKeys(got), sortedKeys(want)...) {
		if got[k] != want[k] {
			return fmt.Sprintf("%s: %q, expected %q", k, got[k], want[k])
		}
	}
	return ""
}

func emptyDirs(w *worker) {
	raw(func() {
		for _, d := range []string{"src", "out", "templates", "store"} {
			must(os.RemoveAll(filepath.Join(w.root, d)))
		}
		must(os.MkdirAll("out", 0o755))
		must(os.MkdirAll("templates", 0o755))
	})
}

// coldBuild empties the working directory, writes one state and builds it.
func coldBuild(s *sim, w *worker, wd *World, st State, cmd CmdPlan) (*actor, map[string][]byte) {
	emptyDirs(w)
	ed := newEditor(s, wd, st)
	ed.st.S = nil
	ed.init()
	cmd.Serve, cmd.Out = false, true
	a := s.command("cold", cmd.args(wd))
	if !s.run(progressLimit, func() bool { return a.exited }) {
		return nil, nil
	}
	return a, readTree("out")
}

// readTree reads every file below a directory.
func readTree(dir string) map[string][]byte {
	out := map[string][]byte{}
	raw(func() {
		_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
			if err == nil && !d.IsDir() {
				if b, err := os.ReadFile(p); err == nil {
					rel, _ := filepath.Rel(dir, p)
					out[rel] = b
				}
			}
			return nil
		})
	})
	return out
}

func firstDiff(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	cut := func(x []byte) string {
		lo, hi := max(0, n-40), min(len(x), n+80)
		if lo > len(x) {
			lo = len(x)
		}
		return string(x[lo:hi])
	}
	return fmt.Sprintf("at byte %d of %d/%d: %q, expected %q", n, len(a), len(b), cut(a), cut(b))
}
