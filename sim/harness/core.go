//go:build go1.22

// Package verifsim is the deterministic simulator for booklit: one process, one
// seeded scheduler, simulated files faults, network, clock, child processes.
package verifsim

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"testing/synctest"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- randomness

type prng struct{ s uint64 }

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func newPRNG(seed uint64, stream string) *prng {
	h := seed
	for i := 0; i < len(stream); i++ {
		h = mix64(h ^ uint64(stream[i]))
	}
	return &prng{mix64(h)}
}

func (p *prng) u64() uint64 { p.s += 0x9e3779b97f4a7c15; return mix64(p.s) }
func (p *prng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(p.u64() >> 1 % uint64(k))
}
func (p *prng) between(a, b int) int { return a + p.n(b-a+1) }
func (p *prng) p(prob float64) bool  { return float64(p.u64()>>11)/(1<<53) < prob }
func pick[T any](p *prng, xs []T) T  { return xs[p.n(len(xs))] }

// ---------------------------------------------------------------- schedule

// Sched is how one run is scheduled. In generation mode the policy draws from
// the seed and records what it did; a replay follows the record.
type Sched struct {
	Policy   string   `json:"policy"` // seq, rand, pct, io, replay
	Seed     uint64   `json:"seed"`
	Mean     int      `json:"mean,omitempty"`     // rand: mean yields between preemptions
	Depth    int      `json:"depth,omitempty"`    // pct: number of change points
	Horizon  int      `json:"horizon,omitempty"`  // pct: range of change points
	Preempts []uint64 `json:"preempts,omitempty"` // replay: yield numbers at which the running task is set aside
	Picks    [][2]int `json:"picks,omitempty"`    // replay: (pick number, index among the ready tasks); default 0
}

type task struct {
	id   uint64
	ch   chan struct{}
	key  unsafe.Pointer
	site int
}

type actor struct {
	n        int
	name     string
	env      map[string]string
	stdout   []byte
	stderr   []byte
	errAt    []errRec // when what was written there
	outTo    *actor   // standard output and error go to these instead
	errTo    *actor
	outPipe  *pipe // or are read by the parent
	errPipe  *pipe
	main     bool // the main function has returned or exited
	exited   bool
	exitCode int
	dead     bool
	panicked string
	keep     bool // stays alive when its main function returns
	signal   int  // it was ended by this signal
	handlers handlers
	onExit   func()
}

type errRec struct {
	off int
	at  time.Duration
}

type event struct {
	Seq  int
	At   time.Duration
	Who  string
	What string
}

type sim struct {
	sched     Sched
	rng       *prng
	root      string
	start     time.Time
	inits     int // states written from nothing
	current   uint64
	settling  *task
	woken     uint64 // as counted by the runtime when the running task was resumed
	ready     []*task
	sorted    int
	blocked   map[unsafe.Pointer][]*task
	kick      chan struct{}
	yields    uint64
	picks     int
	steps     int
	next      uint64 // next yield number at which to preempt
	replayAt  int
	rec       Sched
	prio      map[uint64]uint64
	change    map[uint64]bool
	hash      uint64
	dying     map[uint64]bool
	actors    map[uint64]*actor
	nactors   int
	log       []event
	logging   bool
	noYield   int
	stopped   bool
	maxPicks  int
	maxYields uint64
	overrun   bool

	fs    *simFS
	net   *simNet
	exe   *simExec
	stats stats
}

type stats struct {
	Yields    uint64         `json:"yields"`
	Picks     int            `json:"picks"`
	Preempts  int            `json:"preempts"`
	SimNanos  int64          `json:"sim_ns"`
	Ops       map[string]int `json:"ops"`
	Faults    map[string]int `json:"faults"`
	Probes    map[string]int `json:"probes"`
	Requests  int            `json:"requests"`
	Builds    int            `json:"builds"`
	TraceHash string         `json:"trace"`
	SchedHash string         `json:"sched"`
}

const infinite = ^uint64(0)

// maxYields is far more than any run needs.
const maxYields = 30000000 // and for every byte of filler:
const padYields = 200
const padPicks = 30

func newSim(sc Sched, root string) *sim {
	s := &sim{
		sched: sc, rng: newPRNG(sc.Seed, "schedule"), root: root, start: time.Now(),
		blocked: map[unsafe.Pointer][]*task{}, kick: make(chan struct{}, 1),
		prio: map[uint64]uint64{}, change: map[uint64]bool{}, actors: map[uint64]*actor{}, dying: map[uint64]bool{},
		hash: 14695981039346656037, maxPicks: 3000000, maxYields: maxYields,
	}
	s.rec = Sched{Policy: "replay", Seed: sc.Seed}
	s.stats.Ops = map[string]int{}
	s.stats.Faults = map[string]int{}
	s.stats.Probes = map[string]int{}
	if s.sched.Mean <= 0 {
		s.sched.Mean = 50
	}
	if s.sched.Policy == "pct" {
		h := s.sched.Horizon
		if h <= 0 {
			h = 4000
		}
		for i := 0; i < s.sched.Depth; i++ {
			s.change[uint64(1+s.rng.n(h))] = true
		}
	}
	s.plan()
	s.fs = newFS(s)
	s.net = newNet(s)
	s.exe = &simExec{s: s}
	return s
}

// plan decides the next preemption.
func (s *sim) plan() {
	switch s.sched.Policy {
	case "rand":
		d := uint64(1)
		for s.rng.n(s.sched.Mean) != 0 && d < 100000 {
			d++
		}
		s.next = s.yields + d
	case "replay":
		s.next = infinite
		for s.replayAt < len(s.sched.Preempts) {
			v := s.sched.Preempts[s.replayAt]
			s.replayAt++
			if v > s.yields {
				s.next = v
				break
			}
		}
	default:
		s.next = infinite
	}
}

func (s *sim) now() time.Duration { return time.Since(s.start) }

func (s *sim) event(who, what string) int {
	s.steps++
	s.mixHash(uint64(s.steps))
	for i := 0; i < len(what); i++ {
		s.hash = (s.hash ^ uint64(what[i])) * 1099511628211
	}
	s.log = append(s.log, event{s.steps, s.now(), who, what})
	return s.steps
}

// forget drops what is remembered of goroutines that have ended.
func (s *sim) forget() {
	// maps keep the room they once needed
	s.prio = map[uint64]uint64{}
	dying := map[uint64]bool{}
	for id := range s.dying {
		if s.actors[actorOf(id)] != nil {
			dying[id] = true
		}
	}
	s.dying = dying
	s.actors, s.blocked = fresh(s.actors), fresh(s.blocked)
	s.ready = append([]*task(nil), s.ready...)
	s.stats.Ops, s.stats.Faults, s.stats.Probes = fresh(s.stats.Ops), fresh(s.stats.Faults), fresh(s.stats.Probes)
	s.fs.open = fresh(s.fs.open)
}

func (s *sim) mixHash(x uint64) { s.hash = (s.hash ^ x) * 1099511628211 }

func (s *sim) probe(name string) {
	defer quiet()()
	s.stats.Probes[name]++
}

// ------------------------------------------------------------- task control

func actorOf(id uint64) uint64 { return id >> 48 }

func (s *sim) me() *actor { return s.actors[actorOf(runtime.SimID())] }

// park sets the calling goroutine aside until the scheduler resumes it.
func (s *sim) park(key unsafe.Pointer, site int) {
	id := runtime.SimID()
	raceOff()
	t := &task{id: id, ch: make(chan struct{}), key: key, site: site}
	if key == nil {
		s.ready = append(s.ready, t)
	} else {
		s.blocked[key] = append(s.blocked[key], t)
	}
	if s.current == id {
		s.current = 0
	}
	s.poke()
	<-t.ch
	s.woken = runtime.SimWoken()
	raceOn()
	s.checkDead(id)
}

// settle lets goroutines which the running one has started or woken (through a
// channel, say) get as far as their next yield, where the scheduler knows them.
func (s *sim) settle(id uint64) {
	raceOff()
	t := &task{id: id, ch: make(chan struct{})}
	s.settling = t
	s.poke()
	<-t.ch
	s.woken = runtime.SimWoken()
	raceOn()
	s.checkDead(id)
}

// checkDead ends the calling goroutine when its process is gone. Its deferred
// calls still run, with every effect suppressed.
func (s *sim) checkDead(id uint64) {
	if a := s.actors[actorOf(id)]; a != nil && a.dead && !s.dying[id] {
		s.dying[id] = true
		runtime.Goexit()
	}
}

func (s *sim) poke() {
	select {
	case s.kick <- struct{}{}:
	default:
	}
}

// yield is the hook before every statement of the system under test and before
// every simulated operation.
func (s *sim) yield(site int) {
	if raceBuild {
		defer quiet()()
	}
	if s.stopped || s.noYield > 0 {
		return
	}
	id := runtime.SimID()
	a := s.actors[actorOf(id)]
	if a == nil {
		return
	}
	if a.dead {
		s.checkDead(id)
		return
	}
	s.yields++
	if s.yields > s.maxYields {
		// somebody is in an endless loop
		s.overrun = true
		s.park(unsafe.Pointer(s), site)
		return
	}
	if s.current != id {
		s.park(nil, site)
		return
	}
	if s.woken != runtime.SimWoken() {
		s.settle(id)
	}
	stop := false
	switch s.sched.Policy {
	case "rand", "replay":
		if s.yields >= s.next {
			stop = true
			s.plan()
		}
	case "io":
		if site < 0 && s.rng.n(3) == 0 {
			stop = true
		}
	case "pct":
		if s.change[s.yields] {
			stop = true
			s.prio[id] = uint64(len(s.change)) - uint64(len(s.rec.Preempts)%(len(s.change)+1))
		} else if s.higher(id) {
			stop = true
		}
	}
	if stop && len(s.ready) > 0 {
		s.rec.Preempts = append(s.rec.Preempts, s.yields)
		s.stats.Preempts++
		s.park(nil, site)
	}
}

func (s *sim) prioOf(id uint64) uint64 {
	if p, ok := s.prio[id]; ok {
		return p
	}
	p := 1000 + s.rng.u64()%1000000
	s.prio[id] = p
	return p
}

func (s *sim) higher(id uint64) bool {
	me := s.prioOf(id)
	for _, t := range s.ready {
		if s.prioOf(t.id) > me {
			return true
		}
	}
	return false
}

// block parks the caller until wake(key).
func (s *sim) block(key unsafe.Pointer) {
	if raceBuild {
		defer quiet()()
	}
	if s.stopped {
		select {} // the run is over
	}
	id := runtime.SimID()
	if a := s.actors[actorOf(id)]; a != nil && a.dead {
		s.checkDead(id)
		select {} // a deferred call of a dead process waits for ever
	}
	s.park(key, -1)
}

func (s *sim) wake(key unsafe.Pointer) {
	ts := s.blocked[key]
	if len(ts) == 0 {
		return
	}
	raceOff()
	delete(s.blocked, key)
	for _, t := range ts {
		t.key = nil
		s.ready = append(s.ready, t)
	}
	s.poke()
	raceOn()
}

// raw runs f as the simulator itself, not as part of the system under test.
func raw(f func()) {
	id := runtime.SimSwap(0)
	runtime.SimQuiet(true)
	defer func() {
		runtime.SimQuiet(false)
		runtime.SimSwap(id)
	}()
	f()
}

// ------------------------------------------------------------------- actors

func (s *sim) newActor(name string, env map[string]string) *actor {
	s.nactors++
	a := &actor{n: s.nactors, name: name, env: env}
	s.actors[uint64(a.n)] = a
	return a
}

// spawn starts fn as the main goroutine of actor a. It may be called by the root
// goroutine or by a simulated one.
func (s *sim) spawn(a *actor, fn func()) {
	id := uint64(a.n)<<48 | 1
	go func() {
		runtime.SimSetID(id)
		defer func() {
			defer quiet()()
			if r := recover(); r != nil {
				buf := make([]byte, 16384)
				buf = buf[:runtime.Stack(buf, false)]
				a.panicked = fmt.Sprintf("%v\n%s", r, buf)
				a.exitCode = 2
				a.stderr = append(a.stderr, fmt.Sprintf("panic: %v\n", r)...)
			}
			a.main = true
			if !a.exited && !a.keep {
				a.exited = true
				a.dead = true
			}
			if s.current == runtime.SimID() {
				s.current = 0
			}
			if a.onExit != nil {
				a.onExit()
			}
			s.poke()
		}()
		func() {
			defer quiet()()
			s.park(nil, 0)
		}()
		fn()
	}()
}

func (s *sim) exit(code int) {
	a := s.me()
	if !a.exited {
		a.exited = true
		a.exitCode = code & 0xff
		a.dead = true
		s.event(a.name, fmt.Sprintf("exit %d", a.exitCode))
		s.reap(a)
	}
	runtime.Goexit()
}

// kill ends an actor at once, as SIGKILL would.
func (s *sim) kill(a *actor, code int) {
	if a.dead {
		return
	}
	a.exited = true
	a.dead = true
	a.exitCode = code
	s.reap(a)
}

// reap makes the blocked goroutines of a dead actor runnable so they can end.
func (s *sim) reap(a *actor) {
	var keys []unsafe.Pointer
	for k := range s.blocked {
		keys = append(keys, k)
	}
	var moved []*task
	for _, k := range keys {
		var rest []*task
		for _, t := range s.blocked[k] {
			if actorOf(t.id) == uint64(a.n) {
				moved = append(moved, t)
			} else {
				rest = append(rest, t)
			}
		}
		if len(rest) == 0 {
			delete(s.blocked, k)
		} else {
			s.blocked[k] = rest
		}
	}
	sort.Slice(moved, func(i, j int) bool { return moved[i].id < moved[j].id })
	raceOff()
	s.ready = append(s.ready, moved...)
	s.poke()
	raceOn()
}

// ---------------------------------------------------------------- main loop

// run drives the simulation from the root goroutine until done reports true or
// nothing can happen any more. It reports whether done was reached.
func (s *sim) run(limit time.Duration, done func() bool) bool {
	deadline := time.Now().Add(limit)
	for {
		raceOff()
		synctest.Wait()
		raceOn()
		if t := s.settling; t != nil {
			s.settling = nil
			raceOff()
			t.ch <- struct{}{}
			raceOn()
			continue
		}
		if done() {
			return true
		}
		if len(s.ready) > 0 {
			if s.picks >= s.maxPicks {
				s.overrun = true
				return false
			}
			s.resume()
			continue
		}
		if s.current != 0 {
			// the running goroutine is blocked outside the simulator's control
			// (a channel, a timer); somebody else, or time, has to go on
			s.current = 0
		}
		left := time.Until(deadline)
		if left <= 0 {
			return false
		}
		raceOff()
		tm := time.NewTimer(left)
		select {
		case <-s.kick:
			tm.Stop()
		case <-tm.C:
		}
		raceOn()
	}
}

func (s *sim) resume() {
	// goroutines that became ready since the last pick did so in an order of the
	// Go runtime's choosing (timers of the same instant): put them in ours
	fresh := s.ready[s.sorted:]
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].id < fresh[j].id })
	i := 0
	n := len(s.ready)
	s.picks++
	switch s.sched.Policy {
	case "rand", "io":
		i = s.rng.n(n)
	case "pct":
		best := uint64(0)
		for k, t := range s.ready {
			if p := s.prioOf(t.id); p > best {
				best, i = p, k
			}
		}
	case "replay":
		for len(s.sched.Picks) > 0 && s.sched.Picks[0][0] < s.picks {
			s.sched.Picks = s.sched.Picks[1:]
		}
		if len(s.sched.Picks) > 0 && s.sched.Picks[0][0] == s.picks {
			i = s.sched.Picks[0][1] % n
		}
	}
	if i != 0 {
		s.rec.Picks = append(s.rec.Picks, [2]int{s.picks, i})
	}
	t := s.ready[i]
	s.ready = append(s.ready[:i], s.ready[i+1:]...)
	s.sorted = len(s.ready)
	s.mixHash(t.id)
	s.mixHash(uint64(t.site))
	if s.logging {
		fmt.Fprintf(os.Stderr, "# pick %d of %d: actor %d site %d yields %d\n", s.picks, n, actorOf(t.id), t.site, s.yields)
	}
	s.current = t.id
	raceOff()
	t.ch <- struct{}{}
	raceOn()
}

// blockedList describes who is stuck, for reports.
func (s *sim) blockedList() string {
	var out []string
	for _, ts := range s.blocked {
		for _, t := range ts {
			if a := s.actors[actorOf(t.id)]; a != nil {
				out = append(out, a.name)
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func (s *sim) finish() {
	s.stopped = true
	s.stats.Yields = s.yields
	s.stats.Picks = s.picks
	s.stats.SimNanos = int64(s.now())
	s.stats.TraceHash = fmt.Sprintf("%016x", s.hash)
	h := uint64(14695981039346656037)
	for _, y := range s.rec.Preempts {
		h = (h ^ y) * 1099511628211
	}
	for _, p := range s.rec.Picks {
		h = (h ^ uint64(p[0])) * 1099511628211
		h = (h ^ uint64(p[1])) * 1099511628211
	}
	s.stats.SchedHash = fmt.Sprintf("%016x", h)
}

func fresh[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}
