// Outbound traffic: what the application sends is what the terminal receives.
package main

import (
	"bytes"
	"crypto/rsa"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
)

// fleet is a server with terminals the application knows the sessions of.
type fleet struct {
	e     *Env
	ts    []*Term
	onMsg func(t *Term, s *go808.Session, m *protocol.Message)
	same  bool // all connections carry one terminal number
	num   uint64
}

var forceSame bool

// twins runs a scenario with one terminal number on all connections.
func twins(fn func()) func() {
	return func() {
		forceSame = true
		fn()
	}
}

func (fl *fleet) phone(i int) uint64 {
	if !fl.same {
		return phoneN(i)
	}
	if fl.num == 0 {
		fl.num = phoneN(i)
		if fl.num == 0 {
			fl.num = 1
		}
	}
	return fl.num
}

func newFleet(o srvOpt) *fleet {
	fl := &fleet{same: forceSame || core.WP(0.08)}
	forceSame = false
	o.handler = fl.handle
	if o.types == nil {
		o.types = typeIDs()
	}
	set := o.setup
	o.setup = func(srv *go808.Server) {
		registerOwn()
		if set != nil {
			set(srv)
		}
	}
	fl.e = startServer(o)
	return fl
}

func (fl *fleet) handle(s *go808.Session, m *protocol.Message) {
	idx := snoIdx(m.Header.MsgSerialNo)
	if idx >= len(fl.ts) {
		core.Fail("a handler is given a %04x message with serial %d that no terminal sent", uint16(m.Header.MsgID), m.Header.MsgSerialNo)
	}
	t := fl.ts[idx]
	if t.box.s == nil {
		t.box.put(s)
	}
	if fl.onMsg != nil {
		fl.onMsg(t, s, m)
	}
}

// up makes a frame of the terminal with its next serial number.
func (t *Term) up(id uint16, body []byte) ([]byte, uint16) {
	s := sno(t.idx, t.next())
	return frame(hdr{id: id, phone: t.phone, serial: s}, body), s
}

// passers lets, now and then, other connections come and go first, so that
// the server is not a fresh one.
func (fl *fleet) passers() {
	if !core.WP(0.06) {
		return
	}
	m := []int{1, 8, 20, 40, 70, 130, 260}[core.W(7)]
	base := len(fl.e.closes)
	for j := 0; j < m; j++ {
		x := dial(fl.e, "passer-by", 1)
		core.SleepFor(int64(core.W(3)) * ms)
		x.close()
	}
	core.Count("other connections come and go first")
	must(120*sec, "connections have ended and their closes are not all reported within 120 s", func() bool { return len(fl.e.closes) == base+m })
}

// addQuiet connects a terminal that says nothing.
func (fl *fleet) addQuiet() *Term {
	i := len(fl.ts)
	t := &Term{name: fmt.Sprintf("T%d", i), phone: fl.phone(i), env: fl.e, readMax: 4096, idx: uint16(i)}
	fl.ts = append(fl.ts, t)
	t.connect()
	return t
}

// add connects a terminal and waits until the application has its session.
func (fl *fleet) add() *Term {
	t := fl.addQuiet()
	f, _ := t.up(0x0002, nil)
	t.write(f)
	must(120*sec, "a terminal connects and sends a heartbeat, which is not delivered within 120 s", func() bool { return t.box.s != nil })
	return t
}

// ---------------------------------------------------------------- sends

type outMsg struct {
	g, k       int // sender and its message number
	id         uint16
	body       []byte
	bad        bool // cannot be encoded
	serial     uint16
	err        string
	start, end int64 // order of the calls
	matched    bool
	request    bool
	phone      uint64 // exact phone number expected
	exact      bool
	auto       bool // sent by the library itself
}

type outTerm struct {
	t     *Term
	msgs  []*outMsg
	sent  int
	quiet bool   // connection is never disturbed
	asked int    // messages of the terminal the application answers
	told  int    // answered
	last  uint64 // latest terminal number delivered
}

var opClock int64

func opTick() int64 { opClock++; return opClock }

type badEnt struct{ rawEnt }

var errBad = errors.New("this message cannot be encoded")

func (e *badEnt) Encode() ([]byte, error) { return nil, errBad }

type badReader struct{}

func (badReader) Read(p []byte) (int, error) { return 0, errBad }

type longExtra struct{ n int }

func (e *longExtra) ID() byte                   { return 0xe1 }
func (e *longExtra) Data() []byte               { return make([]byte, e.n) }
func (e *longExtra) Value() interface{}         { return nil }
func (e *longExtra) Decode([]byte) (int, error) { return 0, errBad }

// drawBad makes a message that cannot be encoded: it says so itself, has a
// part that does not fit the byte that gives its length or number, or is too
// long as a whole.
func drawBad() protocol.Entity {
	n := []int{256, 257, 300, 511, 512, 700, 0xff + 1}[core.W(7)]
	txt := strings.Repeat("a", n)
	if core.W(2) == 1 {
		txt = strings.Repeat("\u4e2d", (n+1)/2)
	}
	switch core.W(24) {
	case 0:
		return &badEnt{}
	case 1:
		return &rawEnt{make([]byte, []int{1024, 1025, 2000, 0xffff, 0x10000, 0x10005, 0x10400}[core.W(7)])}
	case 2:
		return &protocol.T808_0x8300{Text: strings.Repeat("a", 1023)}
	case 3:
		return &protocol.T808_0x8A00{}
	case 4:
		return &protocol.T808_0x8A00{PublicKey: &rsa.PublicKey{N: big.NewInt(77), E: 3}}
	case 5:
		return &protocol.T808_0x0A00{PublicKey: &rsa.PublicKey{}}
	case 6:
		return &protocol.T808_0x0801{Packet: badReader{}}
	case 7:
		return &protocol.T808_0x8302{Question: txt}
	case 8:
		return &protocol.T808_0x8302{Question: "q", CandidateAnswers: []protocol.T808_0x8302_Answer{{ID: 1, Content: "yes"}, {ID: 2, Content: txt}}}
	case 9:
		return &protocol.T808_0x8301{Events: []protocol.T808_0x8301_Event{{ID: 1, Content: txt}}}
	case 10:
		return &protocol.T808_0x8301{Events: make([]protocol.T808_0x8301_Event, 256)}
	case 11:
		return &protocol.T808_0x8401{Contacts: []protocol.T808_0x8401_Contact{{Number: txt}}}
	case 12:
		return &protocol.T808_0x8401{Contacts: []protocol.T808_0x8401_Contact{{Number: "1", Contact: txt}}}
	case 13:
		return &protocol.T808_0x8401{Contacts: make([]protocol.T808_0x8401_Contact, 256)}
	case 14:
		return &protocol.T808_0x8303{Items: make([]protocol.T808_0x8303_Item, 256)}
	case 15:
		return &protocol.T808_0x8108{Version: txt}
	case 16:
		return &protocol.T808_0x8003{PacketIDs: make([]uint16, min(n, 500))}
	case 17:
		return &protocol.T808_0x8800{RetryIDs: make([]uint16, min(n, 500))}
	case 18:
		return &protocol.T808_0x8103{Params: []*protocol.Param{new(protocol.Param).SetBytes(1, make([]byte, n))}}
	case 19:
		return &protocol.T808_0x0104{Params: []*protocol.Param{new(protocol.Param).SetString(1, txt)}}
	case 20:
		return &protocol.T808_0x0107{HardwareVersion: txt}
	case 21:
		return &protocol.T808_0x0702{CompanyName: txt}
	case 22:
		return &protocol.T808_0x0200{Extras: []extra.Entity{&longExtra{n}}}
	}
	return &protocol.T808_0x0704{Items: []protocol.T808_0x0200{{Extras: []extra.Entity{&longExtra{n}}}}}
}

// drawOut makes a message to send.
func drawOut() (protocol.Entity, *outMsg) {
	m := &outMsg{}
	seed := core.WBits()
	room := drawRoom()
	switch core.W(10) {
	case 9:
		r := rnd{uint64(seed)}
		m.id = 0x0f01
		switch core.W(6) {
		case 1, 3:
			m.bad = true
			return drawBad(), m
		case 4:
			b := r.bytes(r.size(room))
			m.id, m.body = 0x0f03, append([]byte{}, b...)
			return valEnt{&valData{b}}, m
		case 5:
			e, b := makeBody(typeByID(0x0200), seed, 100, true, false)
			x := valExtra{byte(0xe0 + core.W(8)), string(r.bytes(r.size(60)))}
			m.id, m.body = 0x0200, append(append(b, x.id, byte(len(x.data))), x.data...)
			l := e.(*protocol.T808_0x0200)
			l.Extras = append(l.Extras, x)
			return l, m
		case 2: // about as long as a message may be
			n := 1020 + core.W(8)
			b := r.bytes(n)
			m.body = append([]byte{}, b...)
			m.bad = n > maxBody
			return &rawEnt{b}, m
		}
		b := r.bytes(r.size(room))
		m.body = append([]byte{}, b...)
		return &rawEnt{b}, m
	case 8:
		t := &upTypes[core.W(len(upTypes))]
		if t.id == 0x0901 {
			t = &upTypes[0] // the compressed form is not determined by the content
		}
		e, b := makeBody(t, seed, room, true, core.W(2) == 1)
		m.id, m.body = t.id, b
		return e, m
	}
	t := &downTypes[core.W(len(downTypes))]
	e, b := makeBody(t, seed, room, true, core.W(2) == 1)
	m.id, m.body = t.id, b
	return e, m
}

// scribble changes an entity the application has already sent.
func scribble(e protocol.Entity) {
	switch x := e.(type) {
	case *rawEnt:
		for i := range x.data {
			x.data[i] ^= 0x55
		}
	case *protocol.T808_0x8300:
		x.Text += "X"
		x.Flag++
	case *protocol.T808_0x8001:
		x.Result++
		x.ReplyMsgSerialNo += 3
	case *protocol.T808_0x8900:
		for i := range x.Data {
			x.Data[i]++
		}
		x.Type++
	case *protocol.T808_0x8106:
		for i := range x.Params {
			x.Params[i]++
		}
	case *protocol.T808_0x8202:
		x.Interval++
	}
}

// throttle waits until the terminal has taken most of what was sent to it.
func (ot *outTerm) throttle(limit int) {
	core.WaitFor(1<<60, func() bool { return ot.sent-len(ot.t.rx) < limit || ot.t.eof || ot.t.dead })
	ot.sent++
}

// do sends one message and records the call.
func (ot *outTerm) do(s *go808.Session, e protocol.Entity, m *outMsg) {
	ot.msgs = append(ot.msgs, m)
	if m.bad {
		ot.sent--
	}
	m.start = opTick()
	var n uint16
	var err error
	if m.request {
		n, err = s.Request(e, func(*protocol.Message) {})
	} else {
		n, err = s.Send(e)
	}
	m.end = opTick()
	m.serial = n
	if err != nil {
		m.err = err.Error()
		if !m.bad {
			ot.sent--
		}
	}
	core.Note("app", "sender %d message %d to %s: type %04x len %d serial %d err %s", m.g, m.k, ot.t.name, m.id, len(m.body), n, m.err)
	if m.bad && err == nil {
		core.Fail("sending a message to %s that cannot be encoded succeeds", ot.t.name)
	}
	if !m.bad && err != nil && ot.quiet {
		core.Fail("sending message %d of sender %d to %s, which is connected and reading, fails: %s", m.k, m.g, ot.t.name, m.err)
	}
}

// verify matches what was received with what was sent.
func (ot *outTerm) verify(complete bool) {
	t := ot.t
	core.Acq(&t.env.endTok)
	maxStart := int64(0)
	for i, f := range t.rx {
		var m *outMsg
		for _, x := range ot.msgs {
			if x.err == "" && !x.matched && x.end > 0 && x.serial == f.h.serial && x.id == f.h.id && bytes.Equal(x.body, f.body) {
				m = x
				break
			}
		}
		if m == nil {
			// an answer the library gives by itself
			for _, x := range ot.msgs {
				if x.auto && !x.matched && x.id == f.h.id && bytes.Equal(x.body, f.body) {
					m = x
					break
				}
			}
		}
		if m == nil {
			for _, x := range ot.msgs {
				if x.err == "" && !x.matched && x.end > 0 && x.serial == f.h.serial {
					m = x
					break
				}
			}
		}
		if m == nil {
			// a call that never returned, or one that failed after its message left
			for _, x := range ot.msgs {
				if !x.matched && !x.bad && x.id == f.h.id && bytes.Equal(x.body, f.body) && (x.end == 0 || x.err != "") {
					m = x
					break
				}
			}
		}
		if m == nil {
			core.Fail("%s receives a %04x message with serial %d that was not sent, or receives it twice: frame %x", t.name, f.h.id, f.h.serial, cut(f.raw))
		}
		m.matched = true
		if f.h.id != m.id || !bytes.Equal(f.body, m.body) || f.h.packet || f.h.crypt || f.h.bits != 0 {
			core.Fail("%s receives message %d of sender %d changed: type %04x body %x instead of %04x %x", t.name, m.k, m.g, f.h.id, f.body, m.id, m.body)
		}
		if m.exact && f.h.phone != m.phone {
			core.Fail("%s receives message %d of sender %d with phone number %d instead of %d", t.name, m.k, m.g, f.h.phone, m.phone)
		}
		if m.end > 0 && m.end < maxStart {
			core.Fail("%s receives frame %d (message %d of sender %d) after a message that was sent later", t.name, i, m.k, m.g)
		}
		maxStart = max(maxStart, m.start)
	}
	for _, m := range ot.msgs {
		if m.err != "" || m.bad || m.matched || m.end == 0 {
			continue
		}
		if complete {
			core.Fail("message %d of sender %d (type %04x, serial %d) to %s was sent and is never received", m.k, m.g, m.id, m.serial, t.name)
		}
		if m.end < maxStart {
			core.Fail("message %d of sender %d to %s is lost although one sent after it is received", m.k, m.g, t.name)
		}
	}
}

// serials checks the serial numbers on the wire of one connection.
func (ot *outTerm) serials() {
	rx := ot.t.rx
	for i, f := range rx {
		if f.h.serial == 0 {
			core.Fail("%s receives a message with serial number 0", ot.t.name)
		}
		for j := max(0, i-200); j < i; j++ {
			if rx[j].h.serial == f.h.serial {
				core.Fail("%s receives two messages with serial number %d, %d messages apart", ot.t.name, f.h.serial, i-j)
			}
		}
	}
}

// scenOutbound: concurrent senders, optionally a connection that breaks.
func scenOutbound() {
	opClock = 0
	randNet()
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, 3*sec)
	}
	fl := newFleet(srvOpt{keepalive: 3600})
	fl.passers()
	nt := 1 + core.W(3)
	breaks := core.WP(0.35)
	done, total := 0, 0
	var ots []*outTerm
	limit := 3 + core.W(14)
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if m.Header.MsgID != protocol.MsgT808_0x0200 {
			return
		}
		ot := ots[t.idx]
		e, x := drawOut()
		x.g, x.k = 99, int(m.Header.MsgSerialNo&0xfff)
		ot.sent++
		ot.do(s, e, x)
		ot.told++
	}
	for i := 0; i < nt; i++ {
		t := fl.add()
		ot := &outTerm{t: t, quiet: true}
		if breaks && core.WP(0.6) {
			ot.quiet = false
		}
		if core.WP(0.2) {
			t.slow = int64(core.W(40)) * ms
		}
		ots = append(ots, ot)
	}
	mut := core.WP(0.5)
	for i := 0; i < nt; i++ {
		ot := ots[i]
		ns := 1 + core.W(3)
		for g := 0; g < ns; g++ {
			total++
			n := 1 + core.W(6)
			if core.W(5) == 4 {
				n = 1 + core.W(40)
			}
			fl.e.app(fmt.Sprintf("sender%d.%d", i, g), func() {
				for k := 0; k < n && !core.Failed(); k++ {
					ot.throttle(limit)
					e, m := drawOut()
					m.g, m.k = g, k
					m.request = core.W(8) == 7
					ot.do(ot.t.box.get(), e, m)
					if mut {
						scribble(e)
					}
					if core.W(4) == 3 {
						core.SleepFor(int64(core.W(100)) * ms)
					}
				}
				core.RelMerge(&fl.e.endTok)
				done++
				core.Poke()
			})
		}
		if core.WP(0.3) {
			total++
			nh := 1 + core.W(4)
			core.GoIn(core.CurGroup(), "reporter", func() {
				for k := 0; k < nh && !ot.t.eof; k++ {
					_, b := makeBody(typeByID(0x0200), core.WBits(), 128, false, false)
					f, _ := ot.t.up(0x0200, b)
					if ot.t.writeCut(f, core.W(4)) {
						ot.asked++
					}
					core.SleepFor(int64(core.W(500)) * ms)
				}
				done++
				core.Poke()
			})
		}
		if !ot.quiet {
			t := ot.t
			core.GoIn(core.CurGroup(), "breaker", func() {
				core.SleepFor(int64(core.W(800)) * ms)
				switch core.W(3) {
				case 0:
					core.Count("terminal closes")
					t.close()
				case 1:
					core.Count("connection reset")
					t.conn.Reset()
				case 2:
					core.Count("application closes session")
					fl.e.app("closer", func() { t.box.get().Close() })
				}
				t.dead = true
				core.Poke()
			})
		}
	}
	must(1200*sec, "a send does not return within 1200 s", func() bool { return done == total })
	core.StopFaults()
	for _, ot := range ots {
		t := ot.t
		t.slow = 0
		if ot.quiet {
			core.WaitFor(120*sec, func() bool { return ot.told == ot.asked && len(t.rx) >= ot.sent })
			core.SleepFor(sec)
			if t.eof {
				core.Fail("the connection of %s, which is connected and reading, ends: %s", t.name, t.err)
			}
		} else {
			core.SleepFor(10 * sec)
		}
		ot.verify(ot.quiet)
		core.State(uint64(len(t.rx))<<8 | uint64(len(ot.msgs)))
	}
}

// drawKept makes a message the application keeps, and another one like it.
// change gives the message another content; it says which.
func drawKept() (e, twin protocol.Entity, m *outMsg, change func() []byte) {
	seed, room, gbk := core.WBits(), drawRoom(), core.W(2) == 1
	k := core.W(12)
	t := &downTypes[core.W(len(downTypes))]
	for t.id == 0x8602 || t.id == 0x8604 {
		// encoding these notes the hemisphere in them: the repository's tests want it
		t = typeByID(0x8600)
	}
	switch {
	case k == 11:
		d := (&rnd{uint64(seed)}).bytes(min(room, 200))
		return &rawEnt{d}, &rawEnt{append([]byte{}, d...)}, &outMsg{id: 0x0f01, body: append([]byte{}, d...)}, func() []byte {
			for i := range d {
				d[i] += byte(1 + i)
			}
			return append([]byte{}, d...)
		}
	case k >= 9:
		t = typeByID([]uint16{0x0801, 0x0802, 0x0704, 0x0200, 0x0705}[core.W(5)])
	case k >= 6:
		t = &upTypes[core.W(len(upTypes))]
		if t.id == 0x0901 {
			t = typeByID(0x0801) // its compressed form is not determined by the content
		}
	}
	more := core.W(2) == 1
	make := func(seed uint32) (protocol.Entity, []byte) {
		e, b := makeBody(t, seed, room, true, gbk)
		switch x := e.(type) {
		case *protocol.T808_0x0801:
			x.Packet = nil
			b = b[:36]
			if more {
				// they are not part of this message
				x.Location.Extras = []extra.Entity{valExtra{0xe3, "kept"}}
			}
		case *protocol.T808_0x0802:
			for i := range x.Items {
				if more {
					x.Items[i].Location.Extras = []extra.Entity{valExtra{0xe3, "kept"}}
				}
			}
		}
		return e, b
	}
	e, b := make(seed)
	twin, _ = make(seed)
	return e, twin, &outMsg{id: t.id, body: b}, func() []byte {
		x, b := make(seed + 77)
		reflect.ValueOf(e).Elem().Set(reflect.ValueOf(x).Elem())
		return b
	}
}

// scenKept: one message is sent several times, at once, and stays as it is.
func scenKept() {
	opClock = 0
	randNet()
	fl := newFleet(srvOpt{keepalive: 3600})
	fl.passers()
	nt := 1 + core.W(3)
	var ots []*outTerm
	for i := 0; i < nt; i++ {
		ots = append(ots, &outTerm{t: fl.add(), quiet: true})
	}
	rounds := 1 + core.W(3)
	for r := 0; r < rounds && !core.Failed(); r++ {
		fin := false
		fl.e.app("owner", func() {
			e, twin, m, change := drawKept()
			ns := 1 + core.W(4)
			left := ns
			for g := 0; g < ns; g++ {
				ot := ots[core.W(nt)]
				x := &outMsg{g: g, k: r, id: m.id, body: m.body, request: core.W(4) == 3}
				ot.sent++
				fl.e.app("sender", func() {
					ot.do(ot.t.box.get(), e, x)
					core.RelMerge(&fl.e.endTok)
					left--
					core.Poke()
				})
			}
			core.WaitFor(1<<60, func() bool { return left == 0 })
			fl.e.sync()
			if d := diff(e, twin); d != "" {
				core.Fail("sending a %04x message changes the application's message: %s", m.id, d)
			}
			if core.W(2) == 1 {
				// the same message with another content
				core.Count("message changed and sent again")
				ot := ots[core.W(nt)]
				x := &outMsg{g: 9, k: r, id: m.id, body: change()}
				ot.sent++
				ot.do(ot.t.box.get(), e, x)
			}
			core.RelMerge(&fl.e.endTok)
			fin = true
			core.Poke()
		})
		must(600*sec, "sends do not return within 600 s", func() bool { return fin })
	}
	core.StopFaults()
	for _, ot := range ots {
		t := ot.t
		core.WaitFor(120*sec, func() bool { return len(t.rx) >= ot.sent })
		core.SleepFor(sec)
		if t.eof {
			core.Fail("the connection of %s, which is connected and reading, ends: %s", t.name, t.err)
		}
		ot.verify(true)
		core.State(uint64(len(t.rx))<<8 | uint64(len(ot.msgs)))
	}
}

// scenRelay: the application sends what it receives on to other terminals.
func scenRelay() {
	opClock = 0
	randNet()
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, 3*sec)
	}
	fl := newFleet(srvOpt{keepalive: 3600, merge: core.W(2) == 1})
	fl.passers()
	type relayed struct {
		id   uint16
		body []byte
		to   [2]int
		n    int
	}
	type src struct {
		msgs [0x1000]*relayed
		sent int
		done int
	}
	nt := 2 + core.W(3)
	var ots []*outTerm
	srcs := make([]*src, nt)
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if len(ots) < nt {
			return
		}
		k := m.Header.MsgSerialNo & 0xfff
		x := srcs[t.idx].msgs[k]
		if x == nil {
			return
		}
		for i := 0; i < x.n; i++ {
			ot := ots[x.to[i]]
			ot.sent++
			ot.do(ot.t.box.get(), m.Body, &outMsg{g: int(t.idx), k: int(k), id: x.id, body: x.body})
		}
		srcs[t.idx].done++
		core.Poke()
	}
	for i := 0; i < nt; i++ {
		ots = append(ots, &outTerm{t: fl.add(), quiet: true})
		srcs[i] = &src{}
	}
	done, total := 0, 0
	ns := 1 + core.W(nt)
	limit := max(1, (1+core.W(12))/ns)
	pipe := 1 + core.W(max(1, 4/ns))
	for i := 0; i < ns; i++ {
		t, q := fl.ts[i], srcs[i]
		n := 1 + core.W(12)
		total++
		core.GoIn(core.CurGroup(), "relay source", func() {
			for k := 0; k < n && !core.Failed(); k++ {
				for j := 0; j < nt; j++ {
					// a terminal's queue is bounded
					ot := ots[j]
					core.WaitFor(1<<60, func() bool { return q.sent-q.done < pipe && ot.sent-len(ot.t.rx) < limit || core.Failed() || ot.t.eof })
				}
				typ := &upTypes[core.W(len(upTypes))]
				if typ.id == 0x0901 {
					typ = typeByID(0x0704)
				}
				_, b := makeBody(typ, core.WBits(), drawRoom(), true, false)
				x := &relayed{id: typ.id, body: b, n: 1 + core.W(2)}
				x.to[0] = core.W(nt)
				x.to[1] = core.W(nt)
				if typ.id == 0x0801 {
					x.n = 1 // its data can be read once
				}
				f, ser := t.up(typ.id, b)
				q.msgs[ser&0xfff] = x
				q.sent++
				t.writeCut(f, core.W(4))
				if core.W(4) == 3 {
					core.SleepFor(int64(core.W(100)) * ms)
				}
			}
			done++
			core.Poke()
		})
	}
	must(1200*sec, "a relayed message does not arrive within 1200 s", func() bool { return done == total })
	core.StopFaults()
	for i, ot := range ots {
		q := srcs[i]
		core.WaitFor(120*sec, func() bool { return q.done == q.sent })
		if q.done != q.sent {
			core.Fail("a message of %s is not delivered", ot.t.name)
		}
	}
	for _, ot := range ots {
		t := ot.t
		core.WaitFor(120*sec, func() bool { return len(t.rx) >= ot.sent })
		core.SleepFor(sec)
		if t.eof {
			core.Fail("the connection of %s, which is connected and reading, ends: %s", t.name, t.err)
		}
		ot.verify(true)
		core.State(uint64(len(t.rx))<<8 | uint64(len(ot.msgs)))
	}
}

// scenSerial: serial numbers and phone numbers stamped on what is sent.
func scenSerial() {
	opClock = 0
	randNet()
	snet1()
	merge := core.W(2) == 1
	fl := newFleet(srvOpt{keepalive: 36000, merge: merge})
	fl.passers()
	var ots []*outTerm
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if int(t.idx) >= len(ots) {
			return
		}
		ot := ots[t.idx]
		if m.Header.IccID != 0 {
			ot.last = m.Header.IccID
		}
		if m.Header.MsgID != protocol.MsgT808_0x0200 && m.Header.MsgID != protocol.MsgT808_0x0801 {
			return
		}
		ot.sent++
		x := &outMsg{g: 99, k: int(m.Header.MsgSerialNo), id: 0x8001, phone: ot.last, exact: ot.last != 0}
		x.body = []byte{byte(m.Header.MsgSerialNo >> 8), byte(m.Header.MsgSerialNo), byte(m.Header.MsgID >> 8), byte(m.Header.MsgID), 0}
		ot.msgs = append(ot.msgs, x)
		x.start = opTick()
		n, err := s.Reply(m, protocol.T808_0x8001ResultSuccess)
		x.end = opTick()
		x.serial = n
		if err != nil {
			core.Fail("replying to %s, which is connected and reading, fails: %s", t.name, err.Error())
		}
		ot.told++
	}
	nt := 1 + core.W(2)
	for i := 0; i < nt; i++ {
		t := fl.add()
		ots = append(ots, &outTerm{t: t, quiet: true, last: t.phone})
	}
	done, total := 0, 0
	for i := 0; i < nt; i++ {
		ot := ots[i]
		// bring the counter somewhere near its end
		pre := []int{0, 200, 240, 250, 480, 600}[core.W(6)] + core.W(20)
		ng := 1 + core.W(4)
		total++
		multi := core.WP(0.3)
		fl.e.app("prelude", func() {
			s := ot.t.box.get()
			for k := 0; k < pre; k++ {
				ot.throttle(18)
				ot.do(s, &protocol.T808_0x8104{}, &outMsg{g: 98, k: k, id: 0x8104, phone: ot.t.phone, exact: ot.t.phone != 0 && !multi})
			}
			total += ng
			for g := 0; g < ng; g++ {
				n := 1 + core.W(12)
				core.GoIn(fl.e.grp, fmt.Sprintf("sender%d", g), func() {
					for k := 0; k < n; k++ {
						ot.throttle(14)
						m := &outMsg{g: g, k: k, id: 0x8201, phone: ot.t.phone, exact: ot.t.phone != 0 && !multi}
						m.request = core.W(3) == 2
						ot.do(ot.t.box.get(), &protocol.T808_0x8201{}, m)
					}
					core.RelMerge(&fl.e.endTok)
					done++
					core.Poke()
				})
			}
			done++
			core.Poke()
		})
		if core.WP(0.5) {
			total++
			core.GoIn(core.CurGroup(), "reporter", func() {
				n := 1 + core.W(4)
				for k := 0; k < n; k++ {
					_, b := makeBody(typeByID(0x0200), 0, 128, false, false)
					h := hdr{id: 0x0200, phone: ot.t.phone, serial: sno(ot.t.idx, ot.t.next())}
					if multi {
						h.phone = drawNum()
					}
					if core.W(3) == 2 {
						// the application asks, and sends again in the callback
						ot.consult(fl, h.phone)
						continue
					}
					switch core.W(4) {
					case 3:
						// a type that is never merged, marked as a packet
						h.packet, h.sum, h.seq = true, uint16(1+core.W(3)), uint16(1+core.W(3))
					case 2:
						h.id = 0x0801
						h.packet, h.sum, h.seq = true, 1, 1
						b = partBody(0x0801, uint32(k), content(100))
						if merge {
							x := &outMsg{g: 97, k: k, id: 0x8001, auto: true}
							x.body = []byte{byte(h.serial >> 8), byte(h.serial), 8, 1, 0}
							ot.msgs = append(ot.msgs, x)
							ot.sent++
						}
					}
					ot.asked++
					ot.t.writeCut(frame(h, b), core.W(4))
					core.SleepFor(int64(core.W(300)) * ms)
				}
				done++
				core.Poke()
			})
		}
	}
	must(2400*sec, "a send does not return within 2400 s", func() bool { return done == total })
	for _, ot := range ots {
		core.WaitFor(120*sec, func() bool { return ot.told == ot.asked && len(ot.t.rx) >= ot.sent })
		core.SleepFor(sec)
		ot.serials()
		ot.verify(true)
		core.State(uint64(len(ot.t.rx)))
	}
}

// drawNum draws a terminal number, sometimes none.
func drawNum() uint64 {
	if core.W(4) == 3 {
		return 0
	}
	return phones[core.W(len(phones))]
}

// consult: a request is answered under the given number, and its callback
// sends another message.
func (ot *outTerm) consult(fl *fleet, phone uint64) {
	var serial uint16
	asked, called := false, false
	n := len(ot.msgs)
	fl.e.app("asker", func() {
		s := ot.t.box.get()
		ot.throttle(14)
		m := &outMsg{g: 96, k: n, id: 0x8104, start: opTick()}
		ot.msgs = append(ot.msgs, m)
		no, err := s.Request(&protocol.T808_0x8104{}, func(a *protocol.Message) {
			x := &outMsg{g: 95, k: n, id: 0x8201, phone: ot.last}
			if a.Header.IccID != 0 {
				x.phone = a.Header.IccID
			}
			x.exact = x.phone != 0
			ot.sent++
			ot.do(s, &protocol.T808_0x8201{}, x)
			core.RelMerge(&fl.e.endTok)
			called = true
			core.Poke()
		})
		m.end, m.serial = opTick(), no
		if err != nil {
			core.Fail("a request to %s, which is connected and reading, fails: %s", ot.t.name, err.Error())
		}
		serial, asked = no, true
		core.RelMerge(&fl.e.endTok)
		core.Poke()
	})
	if !core.WaitFor(120*sec, func() bool { return asked }) {
		return
	}
	fl.e.sync()
	ot.t.writeCut(frame(hdr{id: 0x0001, phone: phone, serial: sno(ot.t.idx, ot.t.next())},
		[]byte{byte(serial >> 8), byte(serial), 0x81, 0x04, 0}), core.W(4))
	core.Count("sends in the callback of a request")
	core.WaitFor(120*sec, func() bool { return called })
}

// snet1 keeps long runs cheap: whole segments, short delays.
func snet1() {
	netCfg().SegMode = 0
	netCfg().SpikeP = 0
	netCfg().DelayVar = netCfg().DelayVar % (31 * ms)
}

func init() {
	register(&property{id: "C02", level: "exploration", runs: 30000, scen: []scenario{{"outbound", 4, scenOutbound}, {"kept", 1, scenKept}, {"relay", 1, scenRelay}}})
	register(&property{id: "C03", level: "exploration", runs: 8000, scen: []scenario{{"serial", 1, scenSerial}}})
}
