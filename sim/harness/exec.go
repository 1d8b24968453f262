//go:build go1.22

package verifsim

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"syscall"
)

// simExec stands in for child processes.
type simExec struct {
	s     *sim
	start func(parent *actor, c *exec.Cmd) (*child, error)
	kids  map[*exec.Cmd]*child
}

// pipe is what a parent reads a child's output from.
type pipe struct {
	s      *sim
	buf    []byte
	eof    bool // the child is gone
	closed bool // by the parent, or by waiting for the child
	key    byte
}

func (p *pipe) Read(b []byte) (int, error) {
	for {
		p.s.yield(-3)
		switch {
		case p.closed:
			return 0, os.ErrClosed
		case len(p.buf) > 0:
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			return n, nil
		case p.eof:
			return 0, io.EOF
		}
		p.s.block(keyOf(&p.key))
	}
}

// Write is for the child; see sim.output.
func (p *pipe) Write(b []byte) (int, error) { return 0, os.ErrInvalid }

func (p *pipe) put(b []byte) {
	p.buf = append(p.buf, b...)
	p.s.wake(keyOf(&p.key))
}

func (p *pipe) Close() error {
	p.closed = true
	p.s.wake(keyOf(&p.key))
	return nil
}

type child struct {
	a    *actor
	done bool
	ws   syscall.WaitStatus
	key  byte
}

func (e *simExec) install() {
	e.installSignals()
	e.kids = map[*exec.Cmd]*child{}
	exec.SimStart = func(c *exec.Cmd) error {
		e.s.yield(-3)
		if e.start == nil {
			return errors.New("exec: no child processes in this simulation")
		}
		if c.Err != nil && !errors.Is(c.Err, exec.ErrNotFound) {
			return c.Err
		}
		k, err := e.start(e.s.me(), c)
		if err != nil {
			return err
		}
		e.kids[c] = k
		c.Process = &os.Process{Pid: 1000 + k.a.n}
		return nil
	}
	exec.SimPipe = func(c *exec.Cmd) (io.ReadCloser, io.Writer) {
		p := &pipe{s: e.s}
		return p, p
	}
	os.SimSignal = func(pid int, sig os.Signal) error {
		for _, k := range e.kids {
			if 1000+k.a.n == pid {
				if k.done {
					return os.ErrProcessDone
				}
				n, _ := sig.(syscall.Signal)
				e.s.signal(k.a, n)
				return nil
			}
		}
		return os.ErrProcessDone
	}
	exec.SimWait = func(c *exec.Cmd) error {
		k := e.kids[c]
		if k == nil {
			return errors.New("exec: not started")
		}
		for !k.done {
			e.s.block(keyOf(&k.key))
		}
		// the pipes are closed, whether they have been read or not
		for _, w := range []io.Writer{c.Stdout, c.Stderr} {
			if p, ok := w.(*pipe); ok {
				_ = p.Close()
			}
		}
		c.ProcessState = os.SimProcessState(c.Process.Pid, k.ws)
		if !c.ProcessState.Success() {
			return &exec.ExitError{ProcessState: c.ProcessState}
		}
		return nil
	}
}

// handlers is what a process does about signals.
type handlers struct {
	chans  []notified
	ignore map[syscall.Signal]bool
	fn     func(sig syscall.Signal) // a simulated child's own
}

type notified struct {
	c    chan<- os.Signal
	sigs map[syscall.Signal]bool // nil: all
}

func (e *simExec) installSignals() {
	set := func(sigs []os.Signal) map[syscall.Signal]bool {
		if len(sigs) == 0 {
			return nil
		}
		m := map[syscall.Signal]bool{}
		for _, sig := range sigs {
			if n, ok := sig.(syscall.Signal); ok {
				m[n] = true
			}
		}
		return m
	}
	signal.SimNotify = func(c chan<- os.Signal, sigs []os.Signal) {
		e.s.yield(-3)
		h := &e.s.me().handlers
		for sig := range set(sigs) {
			delete(h.ignore, sig)
		}
		h.chans = append(h.chans, notified{c, set(sigs)})
	}
	signal.SimStop = func(c chan<- os.Signal) {
		e.s.yield(-3)
		h := &e.s.me().handlers
		var rest []notified
		for _, n := range h.chans {
			if n.c != c {
				rest = append(rest, n)
			}
		}
		h.chans = rest
	}
	signal.SimIgnore = func(ignore bool, sigs []os.Signal) {
		e.s.yield(-3)
		h := &e.s.me().handlers
		m := set(sigs)
		if m == nil {
			m = map[syscall.Signal]bool{syscall.SIGINT: true, syscall.SIGTERM: true, syscall.SIGHUP: true}
		}
		for _, n := range h.chans {
			for sig := range m {
				delete(n.sigs, sig)
			}
		}
		h.ignore = map[syscall.Signal]bool{}
		for sig := range m {
			h.ignore[sig] = ignore
		}
	}
}

// signal delivers a signal to a process, which it ends unless the process deals
// with it.
func (s *sim) signal(a *actor, sig syscall.Signal) {
	if a.exited || a.dead {
		return
	}
	s.event(a.name, fmt.Sprintf("signal %d", int(sig)))
	if sig != syscall.SIGKILL {
		h := &a.handlers
		caught := h.ignore[sig]
		for _, n := range h.chans {
			if n.sigs == nil || n.sigs[sig] {
				caught = true
				select {
				case n.c <- sig:
				default:
				}
			}
		}
		if h.fn != nil {
			h.fn(sig)
			return
		}
		if caught {
			return
		}
	}
	a.signal = int(sig)
	s.kill(a, 128+int(sig))
	if a.onExit != nil {
		a.onExit()
	}
}

// launch runs fn as the child process of a command.
func (e *simExec) launch(name string, c *exec.Cmd, fn func()) *child {
	env := map[string]string{}
	for _, kv := range c.Env {
		if i := strings.IndexByte(kv, '='); i > 0 {
			env[kv[:i]] = kv[i+1:]
		}
	}
	parent := e.s.me()
	if c.Env == nil {
		for k, v := range parent.env {
			env[k] = v
		}
	}
	a := e.s.newActor(name, env)
	if c.Stdout == os.Stdout {
		a.outTo = parent
	} else if c.Stdout == os.Stderr {
		a.outTo = &actor{errTo: parent}
	}
	if c.Stderr == os.Stderr {
		a.errTo = parent
	}
	a.outPipe, _ = c.Stdout.(*pipe)
	a.errPipe, _ = c.Stderr.(*pipe)
	k := &child{a: a}
	a.onExit = func() {
		if k.done {
			return
		}
		// what the parent collects instead of passing it on
		for _, p := range []*pipe{a.outPipe, a.errPipe} {
			if p != nil {
				p.eof = true
				e.s.wake(keyOf(&p.key))
			}
		}
		if c.Stdout != nil && a.outTo == nil && a.outPipe == nil {
			raw(func() { _, _ = io.Writer(c.Stdout).Write(a.stdout) })
		}
		if c.Stderr != nil && a.errTo == nil && a.errPipe == nil {
			raw(func() { _, _ = io.Writer(c.Stderr).Write(a.stderr) })
		}
		k.done = true
		if a.signal != 0 {
			k.ws = syscall.WaitStatus(a.signal)
		} else {
			k.ws = syscall.WaitStatus(a.exitCode << 8)
		}
		e.s.wake(keyOf(&k.key))
	}
	e.s.spawn(a, fn)
	return k
}
