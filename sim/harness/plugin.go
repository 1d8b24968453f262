//go:build go1.22

package verifsim

import (
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"strings"
	"time"

	"github.com/vito/booklit"
	_ "github.com/vito/booklit/chroma/plugin"
)

// The plugin the simulated documents use: what a user's plugin package may do.
// Like such a package it keeps content in package variables and hands the same
// objects to every section and every request.

type simPlugin struct{ sec *booklit.Section }

type plugShared struct {
	spare, sseq booklit.Content
	bolds       booklit.Content
	slazy       *booklit.Lazy
	slazyRuns   int
	slow        time.Duration
	lslow       time.Duration
	lfail       string
	slows       []slowCall
	running     int
	lazyRuns    map[string]int
}

type slowCall struct {
	arg        string
	actor      string
	start, end time.Duration
}

var plug *plugShared

func setupPlugin(p *Plan) {
	seq := make(booklit.Sequence, 0, 8)
	seq = append(seq, booklit.String("tc0x1 "), booklit.String(""))
	sseq := booklit.Sequence{booklit.String("tc0x4"), booklit.String(" ")}
	plug = &plugShared{
		spare: seq,
		sseq:  sseq,
		bolds: booklit.Styled{Style: booklit.StyleBold, Content: booklit.String("tc0x2")},
		slow:  time.Duration(p.SlowMS) * time.Millisecond, lslow: time.Duration(p.LazyMS) * time.Millisecond,
		lazyRuns: map[string]int{},
	}
	plug.slazy = booklit.LazyFlow(func() (booklit.Content, error) {
		raw(func() { plug.slazyRuns++ })
		theSim.pause(plug.lslow)
		return booklit.String("tc0x3"), nil
	})
	booklit.RegisterPlugin("simplug", func(s *booklit.Section) booklit.Plugin { return &simPlugin{s} })
}

// pause lets time pass in the middle of plugin code.
func (s *sim) pause(d time.Duration) {
	s.yield(-9)
	if d > 0 {
		s.sleep(d)
	}
}

func (p *simPlugin) SimWord(w string) booklit.Content  { return booklit.String(w) }
func (p *simPlugin) SimSpare(w string) booklit.Content { return plug.spare }
func (p *simPlugin) SimSseq(w string) booklit.Content  { return plug.sseq }
func (p *simPlugin) SimBolds(w string) booklit.Content { return plug.bolds }
func (p *simPlugin) SimSlazy(w string) booklit.Content { return plug.slazy }

// functions with nothing to say
func (p *simPlugin) SimNone(w string) booklit.Content         { return nil }
func (p *simPlugin) SimNil(w string) (booklit.Content, error) { return nil, nil }

func (p *simPlugin) SimSecond(w string) (booklit.Content, error) { return booklit.String(w), nil }

func (p *simPlugin) SimLazy(w string) booklit.Content {
	return booklit.LazyFlow(func() (booklit.Content, error) {
		theSim.pause(plug.lslow)
		return booklit.String(w), nil
	})
}

func (p *simPlugin) SimSlow(w string) (booklit.Content, error) {
	c := slowCall{arg: w, start: theSim.now()}
	if a := theSim.me(); a != nil {
		c.actor = a.name
	}
	theSim.pause(plug.slow)
	c.end = theSim.now()
	plug.slows = append(plug.slows, c)
	return booklit.String(w), nil
}

// SimFail fails in the ways functions do: at length, over several lines, with
// what looks like a format, with other errors inside.
func (p *simPlugin) SimFail(msg string) error {
	sum := crc32.ChecksumIEEE([]byte(msg))
	switch sum % 8 {
	case 0:
		return errors.New("cannot go on:\n\n\t" + msg + "\n\tat all")
	case 1:
		return errors.New(strings.Repeat("there is a lot to say ", 250) + msg)
	case 2:
		return errors.New("100%d of %s: " + msg + " 5% %!")
	case 3:
		return fmt.Errorf("first this, then: %w", errors.New(msg))
	case 4:
		return fmt.Errorf("first this, then: %w", &simError{msg: msg})
	case 5:
		return &simError{msg: msg}
	case 6:
		err := &simError{msg: msg, plain: true}
		if sum/8%2 == 0 {
			return fmt.Errorf("first this, then: %w", err)
		}
		return err
	}
	return errors.New(msg)
}

// simError is an error with a presentation of its own.
type simError struct {
	msg   string
	plain bool // and none in HTML
}

func (e *simError) Error() string             { return "not so good: " + e.msg }
func (e *simError) PrettyPrint(out io.Writer) { fmt.Fprintf(out, "What went wrong: %s\n", e.msg) }
func (e *simError) PrettyHTML(out io.Writer) error {
	if e.plain {
		fmt.Fprint(out, "<b>What")
		return errors.New("no way to show that")
	}
	_, err := fmt.Fprintf(out, "<b>What went wrong: %s</b>", e.msg)
	return err
}

func (p *simPlugin) SimPanic(msg string) booklit.Content { panic(msg) }
