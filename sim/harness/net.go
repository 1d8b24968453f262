//go:build go1.22

package verifsim

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

func keyOf[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

type simNet struct {
	s       *sim
	lst     map[string]*simListener
	bufSize int
	ports   int
	failErr error // the next listen fails with it
}

func newNet(s *sim) *simNet {
	return &simNet{s: s, lst: map[string]*simListener{}, bufSize: 16384}
}

func (n *simNet) install() {
	net.SimListen = func(network, address string) (net.Listener, error) {
		if runtime.SimID() == 0 {
			return nil, errors.New("simulated network: listen outside the simulation")
		}
		defer quiet()()
		n.s.yield(-4)
		if _, used := n.lst[address]; used {
			return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
		l := &simListener{n: n, addr: simAddr(address)}
		n.lst[address] = l
		n.s.wake(keyOf(n))
		return l, nil
	}
}

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type simListener struct {
	n      *simNet
	addr   simAddr
	queue  []*simConn
	closed bool
}

func (l *simListener) Accept() (net.Conn, error) {
	defer quiet()()
	for {
		l.n.s.yield(-5)
		if l.closed {
			return nil, net.ErrClosed
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			return c, nil
		}
		l.n.s.block(keyOf(l))
	}
}

func (l *simListener) Close() error {
	defer quiet()()
	l.closed = true
	delete(l.n.lst, string(l.addr))
	l.n.s.wake(keyOf(l))
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

// half is one direction of a connection.
type half struct {
	buf    []byte
	cap    int
	fin    bool // the writer closed
	reset  bool
	nread  int
	nwrite int
}

type simConn struct {
	n          *simNet
	in, out    *half
	closed     bool
	local, rem simAddr
	rdl, wdl   time.Time
}

func (n *simNet) pair() (client, server *simConn) {
	a, b := &half{cap: n.bufSize}, &half{cap: n.bufSize}
	n.ports++
	ca, sa := simAddr(fmt.Sprintf("10.%d.%d.2:%d", n.ports/250%250, n.ports%250, 20000+n.ports%40000)), simAddr("10.0.0.1:80")
	return &simConn{n: n, in: b, out: a, local: ca, rem: sa}, &simConn{n: n, in: a, out: b, local: sa, rem: ca}
}

// dial connects to a listener, waiting for it to come up.
func (n *simNet) dial(address string) *simConn {
	for n.lst[address] == nil {
		n.s.block(keyOf(n))
	}
	c, srv := n.pair()
	l := n.lst[address]
	l.queue = append(l.queue, srv)
	n.s.wake(keyOf(l))
	return c
}

func (c *simConn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.rem, Err: err}
}

func (c *simConn) Read(b []byte) (int, error) {
	defer quiet()()
	for {
		c.n.s.yield(-6)
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.in.reset {
			return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.in.buf) > 0 {
			k := copy(b, c.in.buf)
			c.in.buf = c.in.buf[k:]
			c.in.nread += k
			c.n.s.wake(keyOf(c.in))
			return k, nil
		}
		if c.in.fin {
			return 0, io.EOF
		}
		c.n.s.block(keyOf(c.in))
	}
}

func (c *simConn) Write(b []byte) (int, error) {
	defer quiet()()
	n := 0
	for {
		c.n.s.yield(-7)
		if n > 0 && n == len(b) {
			return n, nil
		}
		if c.closed {
			return n, c.opErr("write", net.ErrClosed)
		}
		if c.out.reset {
			return n, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if n == len(b) {
			return n, nil
		}
		if space := c.out.cap - len(c.out.buf); space > 0 {
			k := min(space, len(b)-n)
			c.out.buf = append(c.out.buf, b[n:n+k]...)
			c.out.nwrite += k
			n += k
			c.n.s.wake(keyOf(c.out))
			continue
		}
		c.n.s.block(keyOf(c.out))
	}
}

func (c *simConn) Close() error {
	defer quiet()()
	c.n.s.yield(-8)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.out.fin = true
	if len(c.in.buf) > 0 {
		c.out.reset = true // unread data: the peer sees a reset
	}
	c.in.reset = true // whatever the peer still sends fails
	c.n.s.wake(keyOf(c.in))
	c.n.s.wake(keyOf(c.out))
	return nil
}

// CloseWrite sends FIN, keeping the read side.
func (c *simConn) CloseWrite() error {
	c.out.fin = true
	c.n.s.wake(keyOf(c.out))
	return nil
}

// abort sends RST.
func (c *simConn) abort() {
	c.closed = true
	c.out.reset, c.in.reset = true, true
	c.n.s.wake(keyOf(c.in))
	c.n.s.wake(keyOf(c.out))
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.rem }

func (c *simConn) SetDeadline(t time.Time) error {
	defer quiet()()
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *simConn) SetReadDeadline(t time.Time) error {
	defer quiet()()
	c.rdl = t
	c.arm(t, c.in)
	return nil
}

func (c *simConn) SetWriteDeadline(t time.Time) error {
	defer quiet()()
	c.wdl = t
	c.arm(t, c.out)
	return nil
}

func (c *simConn) arm(t time.Time, h *half) {
	if t.IsZero() {
		return
	}
	d := time.Until(t)
	if d <= 0 {
		c.n.s.wake(keyOf(h))
		return
	}
	time.AfterFunc(d, func() { c.n.s.wake(keyOf(h)) })
}

// ------------------------------------------------------------------- client

// Req is one planned HTTP exchange.
type Req struct {
	Path   string `json:"path"`
	Method string `json:"method,omitempty"`
	// Mode: "" reads normally; "slow" pauses while reading; "stall" stops reading
	// after At bytes for Pause ms; "abort" resets after At bytes of the answer;
	// "leave" goes away after Pause ms, without looking at the answer;
	// "half" sends At bytes of the request, pauses, then finishes it; "cut" sends
	// At bytes of the request and resets; "garbage" sends something that is not HTTP.
	Mode  string `json:"mode,omitempty"`
	At    int    `json:"at,omitempty"`
	Pause int    `json:"pause_ms,omitempty"`
	Keep  bool   `json:"keep,omitempty"` // keep the connection for the next request
	Wait  int    `json:"wait_ms,omitempty"`
	Sync  string `json:"sync,omitempty"` // name of a barrier to pass before sending
	Cond  bool   `json:"cond,omitempty"` // asks only for what is newer than the page it has, as browsers do
	Query string `json:"query,omitempty"`
	Gzip  bool   `json:"gzip,omitempty"` // takes compressed answers, as browsers do
	Enc   int    `json:"enc,omitempty"`  // writes the Enc-th byte of the path, counted in a circle, as %XX
}

// encoded writes one character of a path the long way, which is the same path.
func encoded(path string, n int) string {
	if n == 0 || len(path) < 2 {
		return path
	}
	i := 1 + n%(len(path)-1)
	if b := path[i]; b != '/' && b != '%' && b != '.' && b < 0x80 && (i < 2 || path[i-1] != '%' && path[i-2] != '%') {
		return path[:i] + fmt.Sprintf("%%%02x", b) + path[i+1:]
	}
	return path
}

type answer struct {
	client   string
	req      Req
	sent     int // event number just before the first byte is sent
	done     int // event number just after the answer was read (0: never)
	sentAt   time.Duration
	doneAt   time.Duration
	status   int
	header   map[string]string
	body     []byte
	complete bool
	begun    bool // part of the answer arrived
	again    bool // the client was told to show what it has
	err      string
}

type client struct {
	s     *sim
	name  string
	agent string
	conn  *simConn
	rbuf  []byte
	kept  map[string]*answer // pages a browser has, with what is needed to ask whether they are still good
}

func (c *client) read(max int) ([]byte, error) {
	buf := make([]byte, max)
	n, err := c.conn.Read(buf)
	return buf[:n], err
}

// do performs one exchange. A kept connection that turns out to be closed is
// replaced once, as every HTTP client does.
func (c *client) do(addr string, r Req) *answer {
	kept := c.conn != nil
	a := c.exchange(addr, r)
	if kept && a.status == 0 && !a.complete && r.Mode != "cut" && r.Mode != "leave" && a.err != "aborted by the client" && !a.begun {
		c.conn = nil
		first := a
		a = c.exchange(addr, r)
		a.sent, a.sentAt = first.sent, first.sentAt
	}
	return a
}

func (c *client) exchange(addr string, r Req) *answer {
	s := c.s
	a := &answer{client: c.name, req: r, header: map[string]string{}}
	if c.conn == nil {
		c.conn = s.net.dial(addr)
		c.rbuf = nil
	}
	method := r.Method
	if method == "" {
		method = "GET"
	}
	conn := "close"
	if r.Keep {
		conn = "keep-alive"
	}
	url, more := encoded(r.Path, r.Enc), ""
	if url != r.Path {
		s.probe("encoded-path")
	}
	if r.Query != "" {
		url += "?" + r.Query
	}
	var had *answer
	if r.Cond && method == "GET" && c.kept != nil {
		if had = c.kept[r.Path]; had != nil {
			if t := had.header["etag"]; t != "" {
				more += "If-None-Match: " + t + "\r\n"
			}
			if t := had.header["last-modified"]; t != "" {
				more += "If-Modified-Since: " + t + "\r\n"
			}
			s.probe("conditional")
		}
	}
	if r.Gzip {
		more += "Accept-Encoding: gzip\r\n"
	}
	if c.agent != "" {
		more += "User-Agent: " + c.agent + "\r\n"
	}
	msg := []byte(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: sim\r\n%sConnection: %s\r\n\r\n", method, url, more, conn))
	if r.Mode == "garbage" {
		msg = []byte("\x16\x03\x01 not http at all\r\n\r\n")
	}
	s.stats.Requests++
	a.sent = s.event(c.name, "send "+r.Path)
	a.sentAt = s.now()
	drop := func() {
		if c.conn != nil {
			c.conn.abort()
			c.conn = nil
		}
	}
	if r.Mode == "half" || r.Mode == "cut" {
		k := r.At % len(msg)
		if _, err := c.conn.Write(msg[:k]); err != nil {
			a.err = err.Error()
			drop()
			return a
		}
		s.sleep(time.Duration(r.Pause) * time.Millisecond)
		if r.Mode == "cut" {
			drop()
			a.err = "cut"
			s.event(c.name, "cut "+r.Path)
			return a
		}
		msg = msg[k:]
	}
	if _, err := c.conn.Write(msg); err != nil {
		a.err = err.Error()
		drop()
		return a
	}
	if r.Mode == "leave" {
		s.sleep(time.Duration(r.Pause) * time.Millisecond)
		if r.At%2 == 0 {
			drop()
		} else {
			_ = c.conn.Close()
			c.conn = nil
		}
		a.err = "gone"
		s.event(c.name, "leaves "+r.Path)
		return a
	}
	// read the answer
	var data []byte
	data = append(data, c.rbuf...)
	c.rbuf = nil
	total := 0
	paused := false
	fail := func(err error) *answer {
		a.err = err.Error()
		a.doneAt = s.now()
		a.done = s.event(c.name, "error "+r.Path)
		drop()
		return a
	}
	chunk := 65536
	if r.Mode == "slow" {
		chunk = 1 + r.At
	}
	fill := func() error {
		if r.Mode == "abort" && total >= r.At {
			drop()
			return errors.New("aborted by the client")
		}
		if r.Mode == "stall" && total >= r.At && !paused {
			paused = true
			s.event(c.name, "stalls "+r.Path)
			s.sleep(time.Duration(r.Pause) * time.Millisecond)
		}
		if r.Mode == "slow" {
			s.sleep(time.Duration(r.Pause) * time.Millisecond)
		}
		k := chunk
		if r.Mode == "abort" || r.Mode == "stall" && !paused {
			k = max(1, min(k, r.At-total))
		}
		b, err := c.read(k)
		total += len(b)
		a.begun = a.begun || len(b) > 0
		data = append(data, b...)
		return err
	}
	var hdr int
	for {
		if i := bytes.Index(data, []byte("\r\n\r\n")); i >= 0 {
			hdr = i
			break
		}
		if err := fill(); err != nil {
			return fail(err)
		}
	}
	lines := strings.Split(string(data[:hdr]), "\r\n")
	f := strings.Fields(lines[0])
	if len(f) < 2 {
		return fail(errors.New("bad status line"))
	}
	a.status, _ = strconv.Atoi(f[1])
	for _, l := range lines[1:] {
		if k, v, ok := strings.Cut(l, ":"); ok {
			a.header[strings.ToLower(k)] = strings.TrimSpace(v)
		}
	}
	data = data[hdr+4:]
	switch {
	case method == "HEAD":
		a.complete = true
	case a.status == 304:
		a.complete = true
		if had != nil {
			a.status, a.body, a.again = had.status, had.body, true // shown again
		}
	case strings.EqualFold(a.header["transfer-encoding"], "chunked"):
		for !a.complete {
			i := bytes.Index(data, []byte("\r\n"))
			if i < 0 {
				if err := fill(); err != nil {
					return fail(err)
				}
				continue
			}
			sz, err := strconv.ParseInt(string(data[:i]), 16, 32)
			if err != nil {
				return fail(errors.New("bad chunk"))
			}
			need := i + 2 + int(sz) + 2
			for len(data) < need {
				if err := fill(); err != nil {
					return fail(err)
				}
			}
			a.body = append(a.body, data[i+2:i+2+int(sz)]...)
			data = data[need:]
			if sz == 0 {
				a.complete = true
			}
		}
	case a.header["content-length"] != "":
		n, _ := strconv.Atoi(a.header["content-length"])
		for len(data) < n {
			if err := fill(); err != nil {
				a.body = data
				return fail(err)
			}
		}
		a.body = data[:n]
		data = data[n:]
		a.complete = true
	default:
		for {
			if err := fill(); err != nil {
				if err != io.EOF {
					a.body = data
					return fail(err)
				}
				break
			}
		}
		a.body, data = data, nil
		a.complete = true
	}
	c.rbuf = append([]byte(nil), data...)
	if a.header["content-encoding"] == "gzip" && method != "HEAD" && !a.again {
		quietly := quiet()
		z, err := gzip.NewReader(bytes.NewReader(a.body))
		if err == nil {
			a.body, err = io.ReadAll(z)
		}
		quietly()
		if err != nil {
			a.complete = false
			return fail(errors.New("bad compression: " + err.Error()))
		}
	}
	a.doneAt = s.now()
	a.done = s.event(c.name, fmt.Sprintf("answer %s %d %d", r.Path, a.status, len(a.body)))
	if c.kept != nil && a.complete && a.status == 200 && method == "GET" && (r.Path == "/" || strings.HasSuffix(r.Path, ".html")) &&
		(a.header["etag"] != "" || a.header["last-modified"] != "") {
		c.kept[r.Path] = a
	}
	if !r.Keep || strings.EqualFold(a.header["connection"], "close") {
		_ = c.conn.Close()
		c.conn = nil
	}
	return a
}
