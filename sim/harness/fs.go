//go:build go1.22

package verifsim

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Fault is one injected fault: the Nth operation of kind Op by an actor on a
// matching path, and Count-1 matching operations after it.
type Fault struct {
	Actor string `json:"actor,omitempty"` // actor name prefix
	Op    string `json:"op"`
	Path  string `json:"path,omitempty"` // substring of the path
	Nth   int    `json:"nth"`
	Count int    `json:"count,omitempty"` // 0: once, -1: from then on
	Mode  string `json:"mode"`            // err, short, drop, crash, delay, edit, signal
	Err   string `json:"err,omitempty"`
	Limit int    `json:"limit,omitempty"`
	Delay int    `json:"delay_ms,omitempty"`
	Edit  int    `json:"edit,omitempty"`

	seen  int
	fired int
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EDQUOT": syscall.EDQUOT, "EMFILE": syscall.EMFILE,
	"EACCES": syscall.EACCES, "EROFS": syscall.EROFS, "ENFILE": syscall.ENFILE, "EPIPE": syscall.EPIPE,
	"ENOMEM": syscall.ENOMEM, "ENOENT": syscall.ENOENT, "EPERM": syscall.EPERM, "ESTALE": syscall.ESTALE,
	"ENOTDIR": syscall.ENOTDIR, "ETIMEDOUT": syscall.ETIMEDOUT, "ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG,
}

type openFile struct {
	actor uint64
	path  string
	lost  string // data of this handle was lost: its close fails with this error
}

// tracked is what the system under test did with one document: what it loaded,
// and what went wrong until then. After it has closed the document for the first
// time, it can only have opened it again to quote from it.
type tracked struct {
	opens, closes int
	variant       int
	torn          bool
	errs          []string
}

func (f *simFS) tracked(rel string) *tracked {
	t := f.track[rel]
	if t == nil {
		t = &tracked{variant: -1}
		f.track[rel] = t
	}
	return t
}

type opRec struct{ kind, path string }

type simFS struct {
	s        *sim
	faults   []*Fault
	open     map[int]*openFile
	record   map[string][]opRec // per actor, when recording
	short    int                // >0: every read returns at most 1+rng(short) bytes
	shortRng *prng
	dirRng   *prng
	escapes  []string
	edits    func(i int) // performs planned edit i
	onFault  func(event int)
	onSignal func(a *actor)      // sends the planned signal to a process
	track    map[string]*tracked // what became of each document, while not nil
	variant  func(rel string) int
	mtime    bool // give files written by the system the simulated time
}

func newFS(s *sim) *simFS {
	return &simFS{s: s, open: map[int]*openFile{}, record: map[string][]opRec{},
		shortRng: newPRNG(s.sched.Seed, "short"), dirRng: newPRNG(s.sched.Seed, "dir"), mtime: true}
}

func (f *simFS) install() {
	os.SimHook = f.hook
	os.SimOpen = f.opened
	os.SimShuffle = func(n int, swap func(i, j int)) {
		defer quiet()()
		for i := n - 1; i > 0; i-- {
			swap(i, f.dirRng.n(i+1))
		}
	}
}

// inside reports whether path is under the run's scratch directory, and its name
// relative to it.
func (f *simFS) inside(path string) (string, bool) {
	p := path
	if !filepath.IsAbs(p) {
		p = filepath.Join(f.s.root, p)
	}
	p = filepath.Clean(p)
	if p == f.s.root {
		return ".", true
	}
	if strings.HasPrefix(p, f.s.root+"/") {
		return p[len(f.s.root)+1:], true
	}
	return path, false
}

var mutating = map[string]bool{"mkdir": true, "remove": true, "removeall": true, "rename": true,
	"truncate": true, "link": true, "symlink": true}

func (f *simFS) hook(op *os.SimOp) {
	s := f.s
	if s.stopped {
		return
	}
	id := runtime.SimID()
	a := s.actors[actorOf(id)]
	if a == nil {
		return
	}
	if a.dead {
		s.checkDead(id)
		op.Err = syscall.EIO
		if op.Kind == "write" {
			op.Handled, op.Limit = true, 0
		}
		return
	}
	std := op.Kind == "write" && (op.Fd == 1 || op.Fd == 2)
	rel, in := f.inside(op.Path)
	if !std {
		mut := mutating[op.Kind] || op.Kind == "open" && op.Flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0
		in2 := true
		if op.Path2 != "" {
			_, in2 = f.inside(op.Path2)
		}
		if mut && (!in || !in2) {
			// contained: nothing outside the scratch directory is ever touched
			f.escapes = append(f.escapes, op.Kind+" "+op.Path+" "+op.Path2)
			op.Err = syscall.EPERM
			return
		}
		if !in {
			return // libraries reading system files: not part of the simulation
		}
	}
	kind := op.Kind
	if kind == "open" && op.Flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		kind = "create"
	}
	s.yield(-1)
	if a.dead {
		op.Err = syscall.EIO
		return
	}
	s.mixHash(uint64(len(kind))<<32 ^ uint64(len(rel)))
	s.stats.Ops[kind]++
	if f.record != nil && len(f.record[a.name]) < 20000 {
		f.record[a.name] = append(f.record[a.name], opRec{kind, rel})
	}
	for _, ft := range f.faults {
		if ft.Op != kind && ft.Op != "any" || !strings.HasPrefix(a.name, ft.Actor) || !strings.Contains(rel, ft.Path) {
			continue
		}
		ft.seen++
		if ft.seen < ft.Nth {
			continue
		}
		if ft.Count >= 0 && ft.seen > ft.Nth+max(ft.Count-1, 0) {
			continue
		}
		ft.fired++
		s.stats.Faults[ft.Mode+":"+kind]++
		if f.onFault != nil && ft.Mode != "edit" && ft.Mode != "delay" && ft.Mode != "signal" {
			f.onFault(s.steps)
		}
		switch ft.Mode {
		case "err":
			op.Err = errnos[ft.Err]
			if kind == "write" {
				op.Limit = 0
			}
			s.event(a.name, fmt.Sprintf("fault %s %s: %s", kind, rel, ft.Err))
			if f.track != nil {
				if t := f.tracked(rel); t.closes == 0 {
					t.errs = append(t.errs, op.Err.Error())
				}
			}
		case "short":
			if kind == "write" {
				op.Err = errnos[ft.Err]
				op.Limit = ft.Limit % (len(op.Buf) + 1)
			} else if kind == "readdir" {
				op.Err, op.Limit = errnos[ft.Err], ft.Limit%5
			} else {
				op.Limit = 1 + ft.Limit
			}
			s.event(a.name, fmt.Sprintf("short %s %s: %d", kind, rel, op.Limit))
		case "drop":
			op.Handled = true
			if o := f.open[op.Fd]; o != nil {
				o.lost = ft.Err
			}
			s.event(a.name, fmt.Sprintf("lost write %s", rel))
		case "crash":
			s.event(a.name, fmt.Sprintf("crash at %s %s", kind, rel))
			if kind == "write" && ft.Limit > 0 && !std {
				// torn: a prefix of this write reached the disk
				raw(func() { _, _ = syscall.Write(op.Fd, op.Buf[:ft.Limit%(len(op.Buf)+1)]) })
			}
			s.kill(a, 137)
			s.checkDead(id)
		case "signal":
			if f.onSignal != nil {
				f.onSignal(a)
				s.yield(-2)
			}
		case "delay":
			s.event(a.name, fmt.Sprintf("slow %s %s: %dms", kind, rel, ft.Delay))
			s.sleep(time.Duration(ft.Delay) * time.Millisecond)
		case "edit":
			if f.edits != nil {
				f.edits(ft.Edit)
			}
		}
		if op.Err != nil {
			break
		}
	}
	if kind == "read" && f.short > 0 && op.Err == nil {
		op.Limit = 1 + f.shortRng.n(f.short)
		s.stats.Faults["short:read"]++
	}
	if f.track != nil && op.Err == nil && !std {
		switch t := f.tracked(rel); kind {
		case "open":
			if t.opens++; t.opens == 1 && f.variant != nil {
				t.variant = f.variant(rel)
			}
		case "close":
			t.closes++
		}
	}
	switch kind {
	case "write":
		if std && !op.Handled {
			n := len(op.Buf)
			if op.Err != nil {
				n = min(n, max(op.Limit, 0))
			}
			s.output(a, op.Fd == 2, op.Buf[:n])
			op.Handled = true
			op.Limit = n
		}
	case "close":
		if o := f.open[op.Fd]; o != nil {
			delete(f.open, op.Fd)
			if o.lost != "" && op.Err == nil {
				op.Err = errnos[o.lost]
				s.stats.Faults["lost-data-at-close"]++
			}
			if f.mtime {
				p, t := op.Path, time.Now()
				raw(func() { f.stamp(p, t) })
			}
		}
	case "sync":
		if o := f.open[op.Fd]; o != nil && o.lost != "" && op.Err == nil {
			op.Err = errnos[o.lost]
		}
	}
}

// stamp gives a file the simulated time as its modification time, if the product
// wrote it during the run (its real time is newer than any simulated one).
func (f *simFS) stamp(path string, t time.Time) {
	if fi, err := os.Stat(path); err == nil && fi.Mode().IsRegular() && fi.ModTime().Year() >= 2020 {
		_ = os.Chtimes(path, t, t)
	}
}

func (f *simFS) opened(file *os.File, flag int) {
	if _, in := f.inside(file.Name()); !in || f.s.stopped {
		return
	}
	if a := f.s.actors[actorOf(runtime.SimID())]; a != nil && !a.dead {
		f.open[int(fdOf(file))] = &openFile{actor: actorOf(runtime.SimID()), path: file.Name()}
	}
}

// isOpen reports whether the system under test has the file open.
func (f *simFS) isOpen(rel string) bool {
	for _, o := range f.open {
		if r, _ := f.inside(o.path); r == rel {
			return true
		}
	}
	return false
}

func fdOf(file *os.File) (fd uintptr) {
	raw(func() { fd = file.Fd() })
	return
}

// leaked lists the files an actor still holds open.
func (f *simFS) leaked(a *actor) []string {
	var out []string
	for _, o := range f.open {
		if o.actor == uint64(a.n) {
			rel, _ := f.inside(o.path)
			out = append(out, rel)
		}
	}
	sort.Strings(out)
	return out
}

// sleep lets simulated time pass for the calling goroutine.
func (s *sim) sleep(d time.Duration) {
	defer quiet()()
	id := runtime.SimID()
	if s.current == id {
		s.current = 0
	}
	time.Sleep(d)
	s.yield(-2)
}

// output is what became of a write to standard output or error.
func (s *sim) output(a *actor, isErr bool, b []byte) {
	if isErr {
		for a.errTo != nil {
			a = a.errTo
		}
		if a.errPipe != nil {
			a.errPipe.put(b)
		}
		a.errAt = append(a.errAt, errRec{len(a.stderr), s.now()})
		a.stderr = append(a.stderr, b...)
		return
	}
	for a.outTo != nil {
		a = a.outTo
	}
	if a.outPipe != nil {
		a.outPipe.put(b)
	}
	a.stdout = append(a.stdout, b...)
}
