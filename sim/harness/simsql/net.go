//go:build go1.22

// Package simsql is a simulated network with MySQL servers on it.
package simsql

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/schemalex/schemalex/verifsim/core"
)

// Net is a simulated network.
type Net struct {
	e       *core.Env
	mu      sync.Mutex
	servers map[string]*Server
	conns   []*Conn // client ends, in dial order
	wg      sync.WaitGroup
	// Latency delays every segment, Chunk splits them (server to client).
	Latency time.Duration
	Chunk   int
	Dials   int
	Refused int
	// Tap keeps what clients send.
	Tap bool
}

// NewNet makes a network and installs it.
func NewNet(e *core.Env) *Net {
	n := &Net{e: e, servers: map[string]*Server{}}
	net.SimDial = n.dial
	return n
}

// Drop uninstalls the network, closing what is left.
func (n *Net) Drop() {
	net.SimDial = nil
	for _, c := range n.conns {
		c.peer.Close()
		c.Close()
	}
	n.wg.Wait()
}

// Add puts a server on the network.
func (n *Net) Add(addr string, s *Server) { n.servers[addr] = s; s.net = n }

// Open counts client connections that were not closed.
func (n *Net) Open() (k int) {
	for _, c := range n.conns {
		if !c.isClosed() {
			k++
		}
	}
	return
}

// Sent gives what the client sent on each connection, and to whom.
func (n *Net) Sent() (l []Sent) {
	for _, c := range n.conns {
		l = append(l, Sent{c.remote, c.raw})
	}
	return
}

// Sent is the client's side of a connection.
type Sent struct {
	Addr string
	Raw  []byte
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// fault returns the fault of a kind planned for a connection, or for all.
func (n *Net) fault(idx int, kind string) *core.Fault {
	if f := n.e.FaultFor(fmt.Sprintf("conn%d", idx), kind); f != nil {
		return f
	}
	return n.e.FaultFor("conns", kind)
}

func (n *Net) dial(ctx context.Context, network, address string) (net.Conn, error) {
	runtime.SimHold()
	n.Dials++
	idx := n.Dials
	runtime.SimUnhold()
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr(address), Err: err}
	}
	if f := n.fault(idx, "refuse"); f != nil {
		n.e.Fired("dial/refuse")
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	if f := n.fault(idx, "unreachable"); f != nil {
		n.e.Fired("dial/unreachable")
		return fail(os.NewSyscallError("connect", syscall.EHOSTUNREACH))
	}
	wait := n.Latency
	hang := false
	if f := n.fault(idx, "dial-delay"); f != nil {
		n.e.Fired("dial/delay")
		wait += time.Duration(f.Arg) * time.Millisecond
	}
	if f := n.fault(idx, "dial-hang"); f != nil {
		n.e.Fired("dial/hang")
		wait, hang = 127*time.Second, true
	}
	if wait > 0 {
		t := time.NewTimer(wait)
		defer t.Stop()
		select {
		case <-t.C:
		case <-ctx.Done():
			if ctx.Err() == context.DeadlineExceeded {
				return fail(os.ErrDeadlineExceeded)
			}
			return fail(ctx.Err())
		}
	}
	if hang {
		return fail(os.NewSyscallError("connect", syscall.ETIMEDOUT))
	}
	s := n.servers[address]
	if s == nil {
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	cl, sv := n.pair(idx, address)
	runtime.SimHold()
	n.conns = append(n.conns, cl)
	n.wg.Add(1)
	runtime.SimUnhold()
	go func() {
		defer n.wg.Done()
		defer sv.Close()
		s.serve(sv, idx)
	}()
	return cl, nil
}

type seg struct {
	b  []byte
	at time.Time
}

// Conn is one end of a connection.
type Conn struct {
	n      *Net
	idx    int
	client bool
	local  string
	remote string

	mu     sync.Mutex
	sig    chan struct{} // closed and replaced when the state changes
	in     []seg
	fin    bool // the peer closed
	rst    bool // the connection was reset
	closed bool
	rdl    time.Time
	wdl    time.Time

	peer *Conn
	sent int // bytes sent by this end
	raw  []byte
	cut  string
}

func (n *Net) pair(idx int, address string) (cl, sv *Conn) {
	me := fmt.Sprintf("10.0.0.9:%d", 40000+idx)
	cl = &Conn{n: n, idx: idx, client: true, local: me, remote: address, sig: make(chan struct{})}
	sv = &Conn{n: n, idx: idx, local: address, remote: me, sig: make(chan struct{})}
	cl.peer, sv.peer = sv, cl
	return
}

// changed wakes whoever waits; c.mu is held.
func (c *Conn) changed() {
	close(c.sig)
	c.sig = make(chan struct{})
}

func (c *Conn) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: addr(c.local), Addr: addr(c.remote), Err: err}
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		now := time.Now()
		switch {
		case c.closed:
			c.mu.Unlock()
			return 0, c.opErr("read", net.ErrClosed)
		case !c.rdl.IsZero() && !now.Before(c.rdl):
			c.mu.Unlock()
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		case c.rst && len(c.in) == 0:
			c.mu.Unlock()
			return 0, c.opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		case len(p) == 0:
			c.mu.Unlock()
			return 0, nil
		}
		var wake time.Time
		if len(c.in) > 0 {
			s := &c.in[0]
			if !now.Before(s.at) {
				k := copy(p, s.b)
				s.b = s.b[k:]
				if len(s.b) == 0 {
					c.in = c.in[1:]
				}
				c.mu.Unlock()
				return k, nil
			}
			wake = s.at
		} else if c.fin {
			c.mu.Unlock()
			return 0, io.EOF
		}
		if !c.rdl.IsZero() && (wake.IsZero() || c.rdl.Before(wake)) {
			wake = c.rdl
		}
		sig := c.sig
		c.mu.Unlock()
		if wake.IsZero() {
			<-sig
			continue
		}
		t := time.NewTimer(wake.Sub(now))
		select {
		case <-sig:
		case <-t.C:
		}
		t.Stop()
	}
}

// Write implements net.Conn. The network never pushes back.
func (c *Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	switch {
	case c.closed:
		c.mu.Unlock()
		return 0, c.opErr("write", net.ErrClosed)
	case !c.wdl.IsZero() && !time.Now().Before(c.wdl):
		c.mu.Unlock()
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	case c.rst:
		c.mu.Unlock()
		return 0, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	case c.fin && c.peer.isClosed():
		c.mu.Unlock()
		return 0, c.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	case c.cut != "":
		c.mu.Unlock()
		return len(p), nil // swallowed by the network
	}
	from := c.sent
	c.sent += len(p)
	if c.client && c.n.Tap {
		c.raw = append(c.raw, p...)
	}
	c.mu.Unlock()
	out := p
	kind, stall := "", time.Duration(0)
	dir := "s2c"
	if c.client {
		dir = "c2s"
	}
	for _, k := range []string{"rst", "fin", "blackhole", "stall", "flip"} {
		if f := c.n.fault(c.idx, dir+"-"+k); f != nil && f.Arg >= from && f.Arg < from+len(p) {
			out, kind = p[:f.Arg-from], k
			break
		}
	}
	switch kind {
	case "":
		c.deliver(p, 0)
		return len(p), nil
	case "flip":
		c.n.e.Fired("net/" + dir + "-flip")
		b := append([]byte(nil), p...)
		b[len(out)] ^= 1 << (uint(len(p)) % 8)
		c.deliver(b, 0)
		return len(p), nil
	case "stall":
		c.n.e.Fired("net/" + dir + "-stall")
		stall = 20 * time.Second
		c.deliver(out, 0)
		c.deliver(p[len(out):], stall)
		return len(p), nil
	}
	c.n.e.Fired("net/" + dir + "-" + kind)
	c.deliver(out, 0)
	c.mu.Lock()
	c.cut = kind
	c.mu.Unlock()
	switch kind {
	case "rst":
		c.peer.reset()
		c.reset()
	case "fin":
		c.peer.finish()
	}
	return len(p), nil
}

func (c *Conn) deliver(p []byte, extra time.Duration) {
	if len(p) == 0 {
		return
	}
	at := time.Now().Add(c.n.Latency + extra)
	d := c.peer
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.closed || d.rst {
		return
	}
	if k := len(d.in); k > 0 && d.in[k-1].at.After(at) {
		at = d.in[k-1].at
	}
	b := append([]byte(nil), p...)
	if ch := c.n.Chunk; ch > 0 && !c.client {
		for len(b) > ch {
			d.in = append(d.in, seg{b[:ch:ch], at})
			b = b[ch:]
			at = at.Add(c.n.Latency / 16)
		}
	}
	d.in = append(d.in, seg{b, at})
	d.changed()
}

// reset breaks the connection; what was sent before can still be read.
func (c *Conn) reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rst = true
	c.changed()
}

func (c *Conn) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.fin = true
	c.changed()
}

func (c *Conn) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.in = nil
	c.changed()
	c.mu.Unlock()
	c.peer.finish()
	return nil
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return addr(c.local) }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return addr(c.remote) }

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rdl = t
	c.changed()
	return nil
}

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.wdl = t
	return nil
}
