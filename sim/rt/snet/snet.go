//go:build go1.24

// Package snet is a simulated TCP-like network with the interface of net.
package snet

import (
	"context"
	"errors"
	"gosim/core"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Config of the network of one run (set by the harness before use).
type Config struct {
	SegMode    int   // 0 whole writes, 1 random splits, 2 mostly single bytes, 3 small splits
	ReadMode   int   // 0 as much as fits, 1 random short reads, 2 single bytes
	DelayMin   int64 // delivery delay per segment, nanoseconds
	DelayVar   int64 // random extra delay
	SpikeP     float64
	SpikeVar   int64
	Buf        int     // bytes a direction holds before a writer blocks
	AcceptErrP float64 // probability of a temporary accept error
	RstOnClose float64 // closing with unread input resets instead of FIN
}

var Cfg Config

var (
	listeners []*Listener
	conns     []*Conn
	nextPort  int
)

func init() {
	core.OnRunStart(func() {
		listeners, conns, nextPort = nil, nil, 20000
		Cfg = Config{Buf: 1 << 20, DelayMin: 100_000}
	})
}

func opErr(op string, err error, c *Conn) error {
	e := &net.OpError{Op: op, Net: "tcp", Err: err}
	if c != nil {
		e.Source = c.local
		e.Addr = c.remote
	}
	return e
}

type sysErr struct{ e *os.SyscallError }

// Listener is a simulated TCP listener.
type Listener struct {
	port    int
	addr    *net.TCPAddr
	queue   []*Conn
	waiters []*core.G
	closed  bool
	group   *core.Group
	errs    []func() error
	AcceptN int
	deadErr error
}

// Listen opens a simulated listener.
func Listen(network, address string) (net.Listener, error) {
	core.Yield("listen")
	if core.Dying() {
		return nil, net.ErrClosed
	}
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "listen", Net: network, Err: net.UnknownNetworkError(network)}
	}
	i := strings.LastIndex(address, ":")
	if i < 0 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "missing port in address", Addr: address}}
	}
	port, err := strconv.Atoi(address[i+1:])
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: network, Err: &net.AddrError{Err: "invalid port", Addr: address}}
	}
	if port == 0 {
		nextPort++
		port = nextPort
	}
	for _, l := range listeners {
		if l.port == port && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	l := &Listener{port: port, group: core.CurGroup(), addr: &net.TCPAddr{IP: net.IPv4zero, Port: port}}
	listeners = append(listeners, l)
	l.group.OnKill(func() { l.shut() })
	core.Note("net", "listen :%d", port)
	core.Poke()
	return l, nil
}

// ListenConfig is accepted for source compatibility.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

// ListenTCP opens a simulated listener.
func ListenTCP(network string, a *net.TCPAddr) (*Listener, error) {
	p := 0
	if a != nil {
		p = a.Port
	}
	l, err := Listen(network, ":"+strconv.Itoa(p))
	if err != nil {
		return nil, err
	}
	return l.(*Listener), nil
}

// Listening reports whether someone listens on port.
func Listening(port int) bool {
	for _, l := range listeners {
		if l.port == port && !l.closed {
			return true
		}
	}
	return false
}

// InjectAcceptError makes the next Accept on port fail with err.
func InjectAcceptError(port int, err func() error) bool {
	for _, l := range listeners {
		if l.port == port && !l.closed {
			l.errs = append(l.errs, err)
			l.wake()
			return true
		}
	}
	return false
}

// TempError is a temporary accept error (as EMFILE or ECONNABORTED are).
func TempError() error {
	return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
}

// FatalAcceptError is a permanent accept error.
func FatalAcceptError() error {
	return &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EINVAL)}
}

func (l *Listener) wake() {
	for _, g := range l.waiters {
		core.Ready(g)
	}
	l.waiters = nil
}

func (l *Listener) Accept() (net.Conn, error) {
	core.Yield("accept")
	for {
		if core.Dying() || l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.errs) > 0 {
			e := l.errs[0]
			l.errs = l.errs[1:]
			return nil, e() // made by the goroutine that sees it
		}
		if len(l.queue) > 0 {
			if core.F("temporary accept error", Cfg.AcceptErrP) {
				return nil, TempError()
			}
			c := l.queue[0]
			l.queue = l.queue[1:]
			c.owner = core.CurGroup()
			c.owner.OnKill(func() { c.kill() })
			c.Accepted = true
			l.AcceptN++
			core.Note("net", "accept conn %d", c.N)
			return c, nil
		}
		l.waiters = append(l.waiters, core.Cur())
		core.Park("accept")
	}
}

func (l *Listener) AcceptTCP() (net.Conn, error) { return l.Accept() }

func (l *Listener) shut() {
	if l.closed {
		return
	}
	l.closed = true
	for _, c := range l.queue {
		c.abort()
	}
	l.queue = nil
	l.wake()
	core.Poke()
}

func (l *Listener) Close() error {
	core.Yield("listener.close")
	if core.Dying() {
		return nil
	}
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	core.Note("net", "listener :%d closed", l.port)
	l.shut()
	return nil
}

func (l *Listener) Addr() net.Addr { return l.addr }

type chunk struct {
	data []byte
	tok  *int64
}

// pipe is one direction of a connection.
type pipe struct {
	flight  []*chunk // sent, not yet delivered
	avail   []*chunk // delivered, not yet read
	bytes   int      // in flight + available
	lastAt  int64
	fin     bool // FIN delivered: no more data will come
	finSent bool
	hold    bool // partitioned: nothing is delivered
	held    int
	heldFin bool
	Sent    int
	Got     int
}

// Conn is one endpoint of a simulated connection.
type Conn struct {
	N        int
	peer     *Conn
	in       *pipe // data towards this endpoint
	out      *pipe
	local    *net.TCPAddr
	remote   *net.TCPAddr
	closed   bool // closed locally
	rst      error
	waiters  []*core.G
	owner    *core.Group
	rdl, wdl int64
	dlEv     *core.Event
	Accepted bool
	WroteN   int
	Seg      int  // overrides Cfg.SegMode when >0 (value-1)
	NoRead   bool // harness: reads of the peer's kernel buffer stop (stalled)
}

// Dial connects to a simulated listener; the caller is the harness.
func Dial(network, address string) (net.Conn, error) {
	i := strings.LastIndex(address, ":")
	port, err := strconv.Atoi(address[i+1:])
	if err != nil {
		return nil, err
	}
	c, err := DialPort(port)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

func DialPort(port int) (*Conn, error) {
	core.Yield("dial")
	if core.Dying() {
		return nil, net.ErrClosed
	}
	var l *Listener
	for _, x := range listeners {
		if x.port == port && !x.closed {
			l = x
		}
	}
	if l == nil {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	a, b := Pair()
	a.remote = &net.TCPAddr{IP: ip4(10, 0, 0, 1), Port: port}
	b.local = a.remote
	a.owner = core.CurGroup()
	l.queue = append(l.queue, b)
	l.wake()
	core.Note("net", "dial :%d conn %d", port, a.N)
	return a, nil
}

// Pair makes two connected endpoints.
func Pair() (*Conn, *Conn) {
	nextPort++
	n := len(conns)/2 + 1
	p, q := &pipe{}, &pipe{}
	ta := &net.TCPAddr{IP: ip4(10, 0, 1, byte(n)), Port: nextPort}
	sa := &net.TCPAddr{IP: ip4(10, 0, 0, 1), Port: 1}
	a := &Conn{N: n, in: p, out: q, local: ta, remote: sa}
	b := &Conn{N: n, in: q, out: p, local: sa, remote: ta}
	a.peer, b.peer = b, a
	conns = append(conns, a, b)
	return a, b
}

func (c *Conn) wake() {
	for _, g := range c.waiters {
		core.Ready(g)
	}
	c.waiters = nil
}

func (c *Conn) wait(why string) {
	c.waiters = append(c.waiters, core.Cur())
	core.Park(why)
}

func (c *Conn) Read(p []byte) (int, error) {
	core.Yield("net.read")
	for {
		if core.Dying() || c.closed {
			return 0, opErr("read", net.ErrClosed, c)
		}
		if c.rst != nil && len(c.in.avail) == 0 {
			return 0, opErr("read", os.NewSyscallError("read", c.rst), c)
		}
		if c.rdl != 0 && core.Now() >= c.rdl {
			return 0, opErr("read", os.ErrDeadlineExceeded, c)
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in.avail) > 0 {
			n := c.take(p)
			core.WriteRange(p[:n])
			core.Mark(uint64(n))
			return n, nil
		}
		if c.in.fin {
			return 0, io.EOF
		}
		c.wait("net read")
	}
}

func (c *Conn) take(p []byte) int {
	total := 0
	for _, k := range c.in.avail {
		total += len(k.data)
		if total >= len(p) {
			total = len(p)
			break
		}
	}
	n := total
	if total > 1 {
		switch Cfg.ReadMode {
		case 1:
			if core.FN(3) != 0 {
				n = 1 + core.FN(total)
				if n > total {
					n = total
				}
				core.Count("short read")
			}
		case 2:
			if core.FN(8) != 0 {
				n = 1
				core.Count("short read")
			}
		}
	}
	got := 0
	for got < n {
		k := c.in.avail[0]
		core.Acq(k.tok)
		m := copy(p[got:n], k.data)
		got += m
		if m == len(k.data) {
			c.in.avail = c.in.avail[1:]
		} else {
			k.data = k.data[m:]
		}
	}
	c.in.bytes -= got
	c.in.Got += got
	c.peer.wake()
	return got
}

func (c *Conn) Write(p []byte) (int, error) {
	core.Yield("net.write")
	core.ReadRange(p)
	done := 0
	for {
		if core.Dying() || c.closed {
			return done, opErr("write", net.ErrClosed, c)
		}
		if c.rst != nil {
			e := c.rst
			if e == syscall.ECONNRESET && c.peer.closed {
				e = syscall.EPIPE
			}
			return done, opErr("write", os.NewSyscallError("write", e), c)
		}
		if c.wdl != 0 && core.Now() >= c.wdl {
			return done, opErr("write", os.ErrDeadlineExceeded, c)
		}
		if done == len(p) {
			return done, nil
		}
		if c.peer.closed {
			// swallowed by the peer's kernel, which answers with a reset
			c.WroteN += len(p) - done
			core.At(Cfg.DelayMin*2+1, func() { c.reset() })
			return len(p), nil
		}
		space := Cfg.Buf - c.out.bytes
		if space <= 0 {
			c.wait("net write")
			continue
		}
		m := len(p) - done
		if m > space {
			m = space
		}
		c.send(p[done : done+m])
		done += m
		c.WroteN += m
	}
}

func (c *Conn) send(b []byte) {
	mode := Cfg.SegMode
	if c.Seg > 0 {
		mode = c.Seg - 1
	}
	tok := new(int64)
	core.Rel(tok)
	for len(b) > 0 {
		n := len(b)
		if n > 1 {
			switch mode {
			case 1:
				if core.FN(2) != 0 {
					n = 1 + core.FN(n)
				}
			case 2:
				if core.FN(6) != 0 {
					n = 1
				} else {
					n = 1 + core.FN(n)
				}
			case 3:
				m := 1 + core.FN(7)
				if m < n {
					n = m
				}
			}
			if n > len(b) {
				n = len(b)
			}
			if n < len(b) {
				core.Count("segmentation")
			}
		}
		c.sendSeg(append([]byte{}, b[:n]...), tok)
		b = b[n:]
	}
}

func (c *Conn) delay() int64 {
	d := Cfg.DelayMin
	if Cfg.DelayVar > 0 {
		if k := core.FN(5); k > 0 {
			d += Cfg.DelayVar * int64(k) / 4
			core.Count("delivery delay")
		}
	}
	if Cfg.SpikeP > 0 && core.F("delay spike", Cfg.SpikeP) {
		d += Cfg.SpikeVar
	}
	return d
}

func (c *Conn) sendSeg(b []byte, tok *int64) {
	p := c.out
	k := &chunk{data: b, tok: tok}
	p.flight = append(p.flight, k)
	p.bytes += len(b)
	p.Sent += len(b)
	at := core.Now() + c.delay()
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	core.At(at-core.Now(), func() {
		if p.hold {
			p.held++
			return
		}
		c.deliver()
	})
}

func (c *Conn) deliver() {
	p := c.out
	if len(p.flight) == 0 {
		return
	}
	k := p.flight[0]
	p.flight = p.flight[1:]
	if c.peer.closed {
		p.bytes -= len(k.data)
		return
	}
	p.avail = append(p.avail, k)
	c.peer.wake()
	core.Poke()
}

// Hold suspends delivery in both directions (a partition); false heals it.
func (c *Conn) Hold(on bool) {
	for _, e := range []*Conn{c, c.peer} {
		p := e.out
		p.hold = on
		if !on {
			for ; p.held > 0; p.held-- {
				e.deliver()
			}
			if p.heldFin {
				p.heldFin = false
				p.fin = true
				e.peer.wake()
			}
		}
	}
	if on {
		core.Note("net", "conn %d partitioned", c.N)
		core.Count("partition")
	} else {
		core.Note("net", "conn %d healed", c.N)
		core.Count("heal")
	}
	core.Poke()
}

func (c *Conn) sendFin() {
	p := c.out
	if p.finSent {
		return
	}
	p.finSent = true
	at := core.Now() + Cfg.DelayMin
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	core.At(at-core.Now(), func() {
		if p.hold {
			p.heldFin = true
			return
		}
		p.fin = true
		c.peer.wake()
		core.Poke()
	})
}

func (c *Conn) Close() error {
	core.Yield("conn.close")
	if core.Dying() {
		return nil
	}
	if c.closed {
		return opErr("close", net.ErrClosed, c)
	}
	core.Note("net", "conn %d closed by %s", c.N, c.local)
	c.shut()
	return nil
}

func (c *Conn) shut() {
	unread := len(c.in.avail) > 0
	c.closed = true
	c.wake()
	if unread && Cfg.RstOnClose > 0 && core.F("reset on close", Cfg.RstOnClose) {
		c.out.flight, c.out.avail = nil, nil
		core.At(Cfg.DelayMin, func() { c.peer.reset() })
	} else {
		c.sendFin()
	}
	c.peer.wake()
	core.Poke()
}

// CloseWrite sends FIN and keeps reading.
func (c *Conn) CloseWrite() error {
	core.Yield("conn.closewrite")
	c.sendFin()
	return nil
}
func (c *Conn) CloseRead() error { return nil }

func (c *Conn) reset() {
	if c.closed || c.rst != nil {
		return
	}
	c.rst = syscall.ECONNRESET
	c.wake()
	core.Poke()
}

// Reset aborts the connection: both ends fail, data in flight is lost.
func (c *Conn) Reset() {
	core.Note("net", "conn %d reset", c.N)
	c.abort()
}

func (c *Conn) abort() {
	for _, e := range []*Conn{c, c.peer} {
		e.in.flight, e.in.avail, e.in.bytes = nil, nil, 0
		e.reset()
	}
}

// kill is what the kernel does when the owning process dies.
func (c *Conn) kill() {
	if c.closed {
		return
	}
	c.closed = true
	c.waiters = nil
	if core.FN(2) == 1 {
		c.peer.in.flight = nil
		core.At(Cfg.DelayMin, func() { c.peer.reset() })
	} else {
		c.sendFin()
	}
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }

func (c *Conn) setDL(t time.Time, dst *int64) error {
	if core.Dying() || c.closed {
		return opErr("set", net.ErrClosed, c)
	}
	if t.IsZero() {
		*dst = 0
		c.wake()
		return nil
	}
	s, ns := core.WallNow()
	d := int64(t.Sub(time.Unix(s, ns)))
	*dst = core.Now() + d
	if *dst == 0 {
		*dst = 1
	}
	core.At(d, func() { c.wake() })
	c.wake()
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error {
	c.setDL(t, &c.rdl)
	return c.setDL(t, &c.wdl)
}
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.setDL(t, &c.rdl) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDL(t, &c.wdl) }
func (c *Conn) SetNoDelay(bool) error              { return nil }
func (c *Conn) SetKeepAlive(bool) error            { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error {
	return nil
}
func (c *Conn) SetLinger(int) error      { return nil }
func (c *Conn) SetReadBuffer(int) error  { return nil }
func (c *Conn) SetWriteBuffer(int) error { return nil }

// ---- harness helpers (no yield, no edges)

// Broken reports whether this endpoint sees its connection as finished.
func (c *Conn) Broken() bool { return c.rst != nil || c.in.fin || c.closed }

// PeerClosed reports whether the other endpoint has been closed locally.
func (c *Conn) PeerClosed() bool { return c.peer.closed }

// Drained reports whether everything written by this endpoint was read.
func (c *Conn) Drained() bool { return c.out.bytes == 0 }

// Pending is the number of bytes written to the peer and not read by it.
func (c *Conn) Pending() int { return c.out.bytes }

// OpenConns counts the accepted server-side endpoints not yet closed.
func OpenConns() int {
	n := 0
	for _, c := range conns {
		if c.Accepted && !c.closed {
			n++
		}
	}
	return n
}

// IsClosedErr reports whether err is the use-of-closed-connection error.
func IsClosedErr(err error) bool { return errors.Is(err, net.ErrClosed) }

// ip4 makes an address without the instrumented code of package net.
func ip4(a, b, c, d byte) net.IP { return net.IP{a, b, c, d} }
