// The simulated deployment: one server process, terminals and the network.
package main

import (
	"crypto/rsa"
	"fmt"
	"io"

	"gosim/core"
	"gosim/snet"
	"gosim/sos"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// Box hands a session from the code under test to other goroutines of the
// application with the happens-before edge a real program would have.
type Box struct {
	tok int64
	s   *go808.Session
}

func (b *Box) put(s *go808.Session) {
	b.s = s
	core.RelMerge(&b.tok)
	core.Poke()
}
func (b *Box) get() *go808.Session {
	if b.s != nil {
		core.Acq(&b.tok)
	}
	return b.s
}

// Env is one server process.
type Env struct {
	grp     *core.Group
	port    int
	srv     *go808.Server
	box     int64 // edge from creation
	ready   bool
	runs    int
	runEnd  int
	runErr  string
	closes  []*closeRec
	endTok  int64
	onClose func(s *go808.Session)
	onMsg   func(s *go808.Session, m *protocol.Message)
}

type closeRec struct {
	id uint64
	at int64
}

func (e *Env) closeCount(id uint64) int {
	n := 0
	for _, c := range e.closes {
		if c.id == id {
			n++
		}
	}
	return n
}

type srvOpt struct {
	keepalive int64
	merge     bool
	key       bool
	noClose   bool // no close handler
	types     []uint16
	handler   func(s *go808.Session, m *protocol.Message)
	onClose   func(s *go808.Session)
	setup     func(srv *go808.Server)
	noRun     bool
	port      int             // 0: 8808
	priv      *rsa.PrivateKey // overrides key
}

var procN int

// startServer creates the server in its own process group and runs it.
func startServer(o srvOpt) *Env {
	procN++
	e := &Env{grp: core.NewGroup(fmt.Sprintf("server%d", procN)), port: 8808, onMsg: o.handler, onClose: o.onClose}
	if o.port != 0 {
		e.port = o.port
	}
	cg := core.GoIn(e.grp, "create", func() {
		opt := go808.Options{Keepalive: o.keepalive, AutoMergePacket: o.merge}
		if o.key {
			opt.PrivateKey = testKey
		}
		if o.priv != nil {
			opt.PrivateKey = o.priv
		}
		if !o.noClose {
			opt.CloseHandler = func(s *go808.Session) {
				id := s.ID()
				e.closes = append(e.closes, &closeRec{id, core.Now()})
				core.Note("app", "close handler: session %d", id)
				core.RelMerge(&e.endTok)
				core.Poke()
				if e.onClose != nil {
					e.onClose(s)
				}
			}
		}
		srv, err := go808.NewServer(opt)
		if err != nil {
			core.Fail("NewServer fails: %s", err.Error())
		}
		for _, id := range o.types {
			e.handle(srv, id)
		}
		if o.setup != nil {
			o.setup(srv)
		}
		e.srv = srv
		core.RelMerge(&e.box)
		e.ready = true
		core.Poke()
	})
	cg.NoStall = true
	if !core.WaitFor(10*sec, func() bool { return e.ready }) {
		core.Fail("the server is not created within 10 s")
	}
	core.Acq(&e.box)
	if !o.noRun {
		e.run()
		e.waitListening()
	}
	return e
}

// handle registers the application's handler for one message type.
func (e *Env) handle(srv *go808.Server, id uint16) {
	srv.AddHandler(protocol.MsgID(id), func(s *go808.Session, m *protocol.Message) {
		if uint16(m.Header.MsgID) != id {
			core.Fail("the handler of %04x is given a %04x message", id, uint16(m.Header.MsgID))
		}
		if s == nil {
			core.Fail("the handler of %04x is given no session", id)
		}
		if e.onMsg != nil {
			e.onMsg(s, m)
		}
		core.RelMerge(&e.endTok)
		core.Poke()
	})
}

// server returns the server with the edge a program sharing it would have.
func (e *Env) server() *go808.Server {
	core.Acq(&e.box)
	return e.srv
}

// run calls Run in a goroutine of the server process.
func (e *Env) run() {
	e.runs++
	core.GoIn(e.grp, "run", func() {
		err := e.server().Run("tcp", e.port)
		e.runEnd++
		if err != nil {
			e.runErr = err.Error()
		}
		core.Note("app", "Run returns %s", e.runErr)
		core.Poke()
	})
}

func (e *Env) waitListening() {
	if !core.WaitFor(60*sec, func() bool { return snet.Listening(e.port) }) {
		core.Fail("the server does not listen within 60 s of Run")
	}
}

// app starts an application goroutine inside the server process.
func (e *Env) app(name string, fn func()) {
	core.GoIn(e.grp, name, fn)
}

// crash kills the server process; only the disk survives.
func (e *Env) crash() {
	e.grp.Kill()
	sos.ForgetOpen()
	core.ResetGlobals()
	core.Count("process crash")
}

// sync makes everything the handlers did visible to the checker.
func (e *Env) sync() { core.Acq(&e.endTok) }

// ---------------------------------------------------------------- terminal

type rxFrame struct {
	h    hdr
	body []byte
	at   int64
	raw  []byte
}

type Term struct {
	name    string
	phone   uint64
	env     *Env
	conn    *snet.Conn
	df      deframer
	rx      []*rxFrame
	rxBytes int
	eof     bool
	err     string
	eofAt   int64
	serial  uint16
	stopped bool // does not read any more
	onFrame func(*rxFrame)
	slow    int64 // pause between reads
	readMax int
	box     Box // the session the server sees
	idx     uint16
	dead    bool // the connection is known to be gone
	answers []uint16
}

// dial connects and starts the reader.
func dial(e *Env, name string, phone uint64) *Term {
	t := &Term{name: name, phone: phone, env: e, readMax: 4096}
	t.connect()
	return t
}

func (t *Term) connect() bool {
	c, err := snet.DialPort(t.env.port)
	if err != nil {
		t.err = err.Error()
		t.eof = true
		return false
	}
	t.conn = c
	t.df = deframer{}
	t.eof, t.err = false, ""
	core.GoIn(core.CurGroup(), t.name+".rx", func() { t.reader(c) })
	return true
}

func (t *Term) reader(c *snet.Conn) {
	buf := make([]byte, t.readMax)
	for {
		if t.stopped {
			core.WaitFor(1<<60, func() bool { return !t.stopped })
		}
		n, err := c.Read(buf)
		if t.conn != c {
			return
		}
		if n > 0 {
			t.rxBytes += n
			t.df.buf = append(t.df.buf, buf[:n]...)
			for {
				f, ferr := t.df.next()
				if ferr != nil {
					core.Fail("%s receives a broken byte stream from the server: %s", t.name, ferr.Error())
				}
				if f == nil {
					break
				}
				h, body, ferr := parseFrame(f)
				if ferr != nil {
					core.Fail("%s receives a malformed frame from the server: %s", t.name, ferr.Error())
				}
				x := &rxFrame{h, body, core.Now(), f}
				t.rx = append(t.rx, x)
				core.Note("term", "%s got %04x serial %d phone %d len %d", t.name, h.id, h.serial, h.phone, len(body))
				if t.onFrame != nil {
					t.onFrame(x)
				}
			}
			core.Poke()
		}
		if err != nil {
			t.eof = true
			t.eofAt = core.Now()
			if err != io.EOF {
				t.err = err.Error()
			}
			core.Note("term", "%s connection ends: %s", t.name, err.Error())
			core.Poke()
			return
		}
		if t.slow > 0 {
			core.SleepFor(t.slow)
		}
	}
}

// The serial number of a terminal's message tells the terminal and the
// message; what is mixed into it brings up 0, 0xffff and other values.
var serMask uint16

func sno(idx, n uint16) uint16  { return (idx<<12 | n&0xfff) ^ serMask }
func snoIdx(serial uint16) int  { return int((serial ^ serMask) >> 12) }
func snoK(serial uint16) uint16 { return (serial ^ serMask) & 0xfff }

func drawSerMask() {
	serMask = []uint16{0, 0, 0, 0, 0, 0, 1, 2, 0xfffe, 0xfffd, 0x8000, 0xf000}[core.W(12)]
}

func (t *Term) next() uint16 { t.serial++; return t.serial }

// write sends raw bytes, in pieces chosen by the workload.
func (t *Term) write(b []byte) bool {
	_, err := t.conn.Write(b)
	return err == nil
}

// writeCut sends the bytes in arbitrary pieces with arbitrary pauses.
func (t *Term) writeCut(b []byte, mode int) bool {
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 1:
			n = 1 + core.W(len(b))
		case 2:
			n = 1 + core.W(min(len(b), 8))
		case 3:
			n = 1 + core.W(min(len(b), 200))
		}
		if !t.write(b[:n]) {
			return false
		}
		b = b[n:]
		if mode > 0 && core.WP(0.15) {
			core.SleepFor(int64(core.W(50)) * ms)
		}
	}
	return true
}

func (t *Term) close() { t.conn.Close() }

// frames of the given type received so far.
func (t *Term) count(id uint16) int {
	n := 0
	for _, f := range t.rx {
		if f.h.id == id {
			n++
		}
	}
	return n
}

// reply finds the general reply (0x8001) to a message.
func (t *Term) reply(id, serial uint16) *rxFrame {
	for _, f := range t.rx {
		if f.h.id == 0x8001 && len(f.body) == 5 && f.body[0] == byte(serial>>8) && f.body[1] == byte(serial) && f.body[2] == byte(id>>8) && f.body[3] == byte(id) {
			return f
		}
	}
	return nil
}

func (t *Term) replies(id, serial uint16) (l []*rxFrame) {
	for _, f := range t.rx {
		if f.h.id == 0x8001 && len(f.body) == 5 && f.body[0] == byte(serial>>8) && f.body[1] == byte(serial) && f.body[2] == byte(id>>8) && f.body[3] == byte(id) {
			l = append(l, f)
		}
	}
	return
}

// ---------------------------------------------------------------- workload

func netCfg() *snet.Config { return &snet.Cfg }

// randNet draws a network configuration; level 0 is a quiet network.
func randNet() {
	c := &snet.Cfg
	c.SegMode = core.W(4)
	c.ReadMode = core.W(3)
	if c.ReadMode == 2 && core.W(3) != 0 {
		c.ReadMode = 1
	}
	if c.SegMode == 2 && core.W(3) != 0 {
		c.SegMode = 3
	}
	c.DelayMin = []int64{100_000, ms, 20 * ms, 0}[core.W(4)]
	c.DelayVar = []int64{0, ms, 30 * ms, 200 * ms}[core.W(4)]
	if core.WP(0.3) {
		c.SpikeP = 0.05
		c.SpikeVar = 2 * sec
	}
}

var phones = []uint64{13800000001, 1, 999999999999, 123456789012, 70, 100000000000, 13907170007, 10203040506, 900000000000}

// phoneN draws the number of terminal i; some agree with those of other
// terminals in many places.
func phoneN(i int) uint64 {
	k := core.W(len(phones) + 6)
	if k >= len(phones) && i < 9 {
		stride := []uint64{100000000000, 10000000000, 1 << 32, 1 << 16, 256}[core.W(5)]
		return (phones[0] + uint64(i)*stride) % 1000000000000
	}
	p := phones[k%len(phones)]
	return (p + uint64(i)*1000003) % 1000000000000
}

// done fails the run unless cond comes true within d of simulated time.
func must(d int64, what string, cond func() bool) {
	if !core.WaitFor(d, cond) {
		core.Fail("%s", what)
	}
}

func catch(fn func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	fn()
	return
}
