// Application code that panics: only its own call is lost.
package main

import (
	"errors"
	"fmt"
	"io"

	"gosim/core"
	"gosim/sos"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
)

type oddPanic struct{ n int }

// boom panics in one of the ways application code does.
func boom() {
	core.Count("application panics")
	switch core.W(6) {
	case 1:
		panic(errors.New("application error"))
	case 2:
		var m map[string]int
		m["x"] = 1
	case 3:
		var t *Term
		t.serial++
	case 4:
		panic(oddPanic{7})
	case 5:
		var l []int
		_ = l[core.W(3)]
	}
	panic("application failure")
}

// panEnt is an application-defined message type whose decoder panics at
// bodies that begin with 1 (or, one that may be split, with 2).
type panEnt struct{ id protocol.MsgID }

func (e *panEnt) MsgID() protocol.MsgID   { return e.id }
func (e *panEnt) Encode() ([]byte, error) { return nil, nil }
func (e *panEnt) Decode(b []byte) (int, error) {
	if b[0] == 1 {
		boom()
	}
	return len(b), nil
}

type panPktEnt struct {
	panEnt
	pktEnt
}

func (e *panPktEnt) MsgID() protocol.MsgID        { return 0x0f05 }
func (e *panPktEnt) Encode() ([]byte, error)      { return nil, nil }
func (e *panPktEnt) Decode(b []byte) (int, error) { return e.panEnt.Decode(b) }
func (e *panPktEnt) DecodePacket(b []byte) error {
	if b[0] == 2 {
		boom()
	}
	_, err := e.Decode(b)
	return err
}

// accEnt is a type that may be split whose other methods panic, or that has no
// reader.
type accEnt struct {
	pktEnt
	how byte
}

func (e *accEnt) MsgID() protocol.MsgID { return 0x0f07 }
func (e *accEnt) DecodePacket(b []byte) error {
	e.how = b[0]
	if e.how != 2 {
		e.r = e
	}
	return nil
}
func (e *accEnt) GetTag() uint32 {
	if e.how == 1 {
		boom()
	}
	return 3
}
func (e *accEnt) GetReader() io.Reader {
	if e.how == 0 {
		boom()
	}
	return e.r
}
func (e *accEnt) Read(b []byte) (int, error) {
	if e.how == 3 {
		boom()
	}
	b[0] = 1
	return 1, io.EOF
}
func (e *accEnt) SetReader(r io.Reader) { boom() }

// panExtra is an application-defined location extension whose decoder panics.
type panExtra struct{}

func (panExtra) ID() byte                     { return 0xea }
func (panExtra) Data() []byte                 { return nil }
func (panExtra) Value() interface{}           { return nil }
func (panExtra) Decode(b []byte) (int, error) { boom(); return 0, nil }

// undecodable makes a message at which a decoder of the application panics.
func undecodable() (id uint16, body []byte) {
	switch core.W(5) {
	case 0:
		return 0x0f05, []byte{1, 0, 0}
	case 1:
		return 0x0f05, []byte{2}
	case 2:
		return 0x0f06, []byte{1, 2, 3}
	case 3:
		return 0x0200, append(sampleLoc()[:28:28], 0xea, 1, 0)
	}
	return 0x0f04, []byte{1, 0x7e, 0x7d}
}

type panTerm struct {
	t     *Term
	fail  []uint16
	undec []uint16
	sent  []uint16
	bad   [64]bool
	got   []uint16
	reqs  int
	calls int
	fin   bool
	dead  bool
	fatal bool
	id    uint64
}

// refused counts the answers to a message that say it is unsupported.
func (x *panTerm) refused(s uint16) (n int) {
	for _, id := range []uint16{0x0200, 0x0f04, 0x0f05, 0x0f06} {
		for _, f := range x.t.replies(id, s) {
			if f.body[4] == 3 {
				n++
			}
		}
	}
	return
}

func scenPanic() {
	randNet()
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, 2*sec)
	}
	var ts []*panTerm
	var fl *fleet
	closeP := []float64{0, 0.5, 1}[core.W(3)]
	merge := core.WP(0.3)
	fl = newFleet(srvOpt{keepalive: 36000, merge: merge, types: append(typeIDs(), 0x0f04, 0x0f05, 0x0f06, 0x0f07), setup: func(*go808.Server) {
		protocol.Register(0x0f04, func() protocol.Entity { return &panEnt{id: 0x0f04} })
		protocol.Register(0x0f05, func() protocol.Entity { return &panPktEnt{} })
		protocol.Register(0x0f06, func() protocol.Entity { boom(); return nil })
		protocol.Register(0x0f07, func() protocol.Entity { return &accEnt{} })
		extra.Register(0xea, func() extra.Entity { return panExtra{} })
	}, onClose: func(s *go808.Session) {
		if n := fl.e.closeCount(s.ID()); n > 1 {
			core.Fail("the close of session %d is reported %d times", s.ID(), n)
		}
		if core.WP(closeP) {
			boom()
		}
	}})
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if int(t.idx) >= len(ts) {
			return
		}
		x := ts[t.idx]
		x.id = s.ID()
		n := m.Header.MsgSerialNo
		x.got = append(x.got, n)
		core.Note("app", "%s message %d", t.name, n&0xfff)
		core.Poke()
		if m.Header.MsgID == protocol.MsgT808_0x0200 {
			if _, err := s.Reply(m, protocol.T808_0x8001ResultSuccess); err != nil && !x.dead {
				core.Fail("replying to %s, which is connected and reading, fails: %s", t.name, err.Error())
			}
		}
		if x.bad[n&63] {
			boom()
		}
	}
	n := 1 + core.W(3)
	done, total := 0, 0
	for i := 0; i < n; i++ {
		t := fl.add()
		x := &panTerm{t: t}
		ts = append(ts, x)
		k := 1 + core.W(6)
		var wire [][]byte
		for j := 0; j < k; j++ {
			var f []byte
			var s uint16
			switch core.W(5) {
			case 4:
				id, b := undecodable()
				f, s = t.up(id, b)
				x.undec = append(x.undec, s)
				wire = append(wire, f)
				core.Count("message decoder panics")
				continue
			case 3:
				f, s = t.up(0x0f04, []byte{0})
			case 1:
				f, s = t.up(0x0002, nil)
			default:
				_, b := makeBody(typeByID(0x0200), core.WBits(), 100, false, false)
				f, s = t.up(0x0200, b)
			}
			x.sent = append(x.sent, s)
			x.bad[s&63] = core.W(2) == 1
			wire = append(wire, f)
		}
		for merge && core.W(4) == 3 {
			s := sno(t.idx, t.next())
			core.Count("accessor of a packet type panics")
			wire = append(wire, frame(hdr{id: 0x0f07, phone: t.phone, serial: s, packet: true, sum: 1, seq: 1}, []byte{byte(core.W(5))}))
			x.fail = append(x.fail, s)
		}
		if merge && core.W(2) == 1 {
			for q := 1; q <= 2; q++ {
				s := sno(t.idx, t.next())
				f := frame(hdr{id: 0x0801, phone: t.phone, serial: s, packet: true, sum: 2, seq: uint16(q)}, partBody(0x0801, 5, content(50)))
				wire = append(wire, f)
				if q == 2 {
					x.sent = append(x.sent, s)
					x.bad[s&63] = core.W(2) == 1
				}
			}
		}
		reqs := core.W(4)
		total++
		core.GoIn(core.CurGroup(), t.name, func() {
			for _, f := range wire {
				if !t.writeCut(f, core.W(4)) {
					core.Fail("the connection of %s breaks after the application panicked", t.name)
				}
				core.SleepFor(int64(core.W(200)) * ms)
			}
			// answer the requests
			for x.calls < reqs {
				seen := 0
				for _, f := range t.rx {
					if f.h.id == 0x8104 {
						seen++
						if seen == x.calls+1 {
							a, s := t.up(0x0001, []byte{byte(f.h.serial >> 8), byte(f.h.serial), 0x81, 4, 0})
							x.sent = append(x.sent, s)
							if core.W(2) == 1 {
								x.bad[s&63] = true
							}
							before := x.calls
							t.write(a)
							if !core.WaitFor(60*sec, func() bool { return x.calls > before }) {
								core.Fail("%s answers a request and its callback is not called within 60 s; earlier callbacks panicked", t.name)
							}
							break
						}
					}
				}
				core.SleepFor(100 * ms)
			}
			done++
			core.Poke()
		})
		if reqs > 0 {
			total++
			fl.e.app("requests", func() {
				for x.reqs < reqs {
					x.reqs++
					want := x.reqs
					_, err := t.box.get().Request(&protocol.T808_0x8104{}, func(*protocol.Message) {
						x.calls++
						core.Poke()
						if core.W(3) != 0 {
							core.Count("request callback panics")
							boom()
						}
					})
					if err != nil {
						core.Fail("a request to %s, which is connected and reading, fails: %s", t.name, err.Error())
					}
					core.WaitFor(1<<60, func() bool { return x.calls >= want })
				}
				done++
				core.Poke()
			})
		}
	}
	must(900*sec, "terminals do not finish within 900 s after the application panicked", func() bool { return done == total })
	core.StopFaults()
	for _, x := range ts {
		if !core.WaitFor(60*sec, func() bool { return len(x.got) >= len(x.sent) }) {
			core.Fail("%d of %d messages of %s are delivered; the application panicked in some handlers", len(x.got), len(x.sent), x.t.name)
		}
		for _, s := range x.undec {
			core.WaitFor(60*sec, func() bool { return x.refused(s) > 0 || x.t.eof })
		}
		for _, s := range x.fail {
			core.WaitFor(60*sec, func() bool { return len(x.t.replies(0x0f07, s)) > 0 || x.t.eof })
		}
	}
	core.SleepFor(2 * sec)
	for _, x := range ts {
		if len(x.got) != len(x.sent) {
			core.Fail("%d messages of %s are delivered instead of %d", len(x.got), x.t.name, len(x.sent))
		}
		for i := range x.got {
			if x.got[i] != x.sent[i] {
				core.Fail("message %d of %s is delivered out of order", i, x.t.name)
			}
		}
		if x.t.eof {
			core.Fail("the connection of %s is closed after the application panicked", x.t.name)
		}
		for _, s := range x.sent {
			if len(x.t.replies(0x0200, s)) > 1 {
				core.Fail("%s is answered twice", x.t.name)
			}
		}
		for _, s := range x.undec {
			if n := x.refused(s); n != 1 {
				core.Fail("a message of %s at which the application's decoder panics is answered as unsupported %d times", x.t.name, n)
			}
		}
	}
	for _, x := range ts {
		for _, s := range x.fail {
			if l := x.t.replies(0x0f07, s); len(l) != 1 || l[0].body[4] != 1 {
				core.Fail("a packet of %s whose type panics when it is read or completed is not answered with failure, once", x.t.name)
			}
		}
	}
	if !core.WaitFor(60*sec, func() bool { return sos.OpenNow == 0 }) {
		core.Fail("%d files stay open after a handler panicked", sos.OpenNow)
	}
	// connections end; close handlers panic too
	for _, x := range ts {
		if core.W(2) == 1 {
			x.dead = true
			x.t.close()
		}
	}
	core.SleepFor(5 * sec)
	fin := false
	fl.e.app("stop", func() { fl.e.server().Stop(); fin = true; core.Poke() })
	must(60*sec, "Stop does not return within 60 s; close handlers panicked", func() bool { return fin })
	core.SleepFor(5 * sec)
	for _, x := range ts {
		if x.id == 0 {
			continue
		}
		if c := fl.e.closeCount(x.id); c != 1 {
			core.Fail("the close of the connection of %s is reported %d times; close handlers panicked", x.t.name, c)
		}
	}
	core.State(uint64(n)<<4 | uint64(total))
}

var _ = fmt.Sprint

func init() {
	register(&property{id: "C14", level: "exploration", runs: 40000, scen: []scenario{{"panic", 1, scenPanic}}})
}
