// Inbound traffic: what terminals send is what the application's handlers get.
package main

import (
	"bytes"
	"fmt"

	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// inMsg is one message a terminal sends and the delivery it must cause.
type inMsg struct {
	h      hdr
	prop   uint16
	ent    protocol.Entity
	media  []byte
	body   []byte
	wire   []byte
	expect int // 1: delivered; 0: never delivered; 2: either delivered or refused
	got    int
	msg    *protocol.Message
	done   bool // the handler has finished with it
}

type inTerm struct {
	t      *Term
	idx    int
	msgs   []*inMsg
	last   int // highest delivered
	sess   *go808.Session
	sessID uint64
	k0     int
	sent   int
	repeat bool // serial numbers and whole messages may be repeated
	own    map[uint16]bool
}

type inbound struct {
	e       *Env
	ts      []*inTerm
	slow    bool
	lax     bool // messages of unspecified fate may arrive in any shape
	replies int
	check   func(it *inTerm, m *inMsg, s *go808.Session, msg *protocol.Message)
}

const maxTerms = 15

// rawEnt is an application-defined message type.
type rawEnt struct{ data []byte }

func (e *rawEnt) MsgID() protocol.MsgID   { return 0x0f01 }
func (e *rawEnt) Encode() ([]byte, error) { return e.data, nil }
func (e *rawEnt) Decode(b []byte) (int, error) {
	e.data = append([]byte{}, b...)
	return len(b), nil
}

// valEnt is an application-defined message type that is not a pointer.
type valEnt struct{ d *valData }

type valData struct{ data []byte }

func (e valEnt) MsgID() protocol.MsgID   { return 0x0f03 }
func (e valEnt) Encode() ([]byte, error) { return e.d.data, nil }
func (e valEnt) Decode(b []byte) (int, error) {
	e.d.data = append([]byte{}, b...)
	return len(b), nil
}

// valExtra is an extension of a location, not a pointer either.
type valExtra struct {
	id   byte
	data string
}

func (e valExtra) ID() byte                     { return e.id }
func (e valExtra) Data() []byte                 { return []byte(e.data) }
func (e valExtra) Value() interface{}           { return e.data }
func (e valExtra) Decode(b []byte) (int, error) { return len(b), nil }

// ownEnt is what the application decodes a known message type with.
type ownEnt struct {
	id   uint16
	data []byte
	says uint16 // it serves several types and names one when asked
}

func (e *ownEnt) MsgID() protocol.MsgID {
	if e.says != 0 {
		return protocol.MsgID(e.says)
	}
	return protocol.MsgID(e.id)
}
func (e *ownEnt) Encode() ([]byte, error) { return e.data, nil }
func (e *ownEnt) Decode(b []byte) (int, error) {
	e.data = append([]byte{}, b...)
	return len(b), nil
}

// registerOwn defines the application's message types.
func registerOwn() {
	protocol.Register(0x0f01, func() protocol.Entity { return &rawEnt{} })
	protocol.Register(0x0f03, func() protocol.Entity { return valEnt{&valData{}} })
}

// ownTypes lets the application define message types, and decode some of
// the known ones with types of its own; it lists the latter.
func ownTypes() map[uint16]bool {
	registerOwn()
	if core.W(3) != 2 {
		return nil
	}
	own := map[uint16]bool{}
	for i := 0; i < 1+core.W(3); i++ {
		id := []uint16{0x0001, 0x0104, 0x0201, 0x0302, 0x0500, 0x0700, 0x0802, 0x0805, 0x0002, 0x0102, 0x0200, 0x0900}[core.W(12)]
		says := []uint16{0, 0, 0x0f05, 0x0200}[core.W(4)]
		own[id] = true
		protocol.Register(id, func() protocol.Entity { return &ownEnt{id: id, says: says} })
	}
	core.Count("known types decoded by the application")
	return own
}

// typeIDs lists the message types the application handles.
func typeIDs() (l []uint16) {
	for _, t := range allTypes {
		l = append(l, t.id)
	}
	return append(l, 0x0f01, 0x0f03)
}

// drawSize picks how much room a body has.
func drawRoom() int {
	switch core.W(6) {
	case 4:
		return maxBody
	case 5:
		return 64 + core.W(900)
	}
	return 128
}

// draw makes the k-th message of a terminal.
func (it *inTerm) draw(merge, custom bool) *inMsg {
	m := &inMsg{expect: 1}
	seed := core.WBits()
	room := drawRoom()
	h := hdr{phone: it.t.phone, serial: sno(uint16(it.idx), uint16(it.k0+len(it.msgs)))}
	var body []byte
	if custom && core.W(8) == 7 {
		r := rnd{uint64(seed)}
		body = r.bytes(r.size(room))
		m.ent = &rawEnt{body}
		h.id = 0x0f01
		if core.W(3) == 2 {
			m.ent = valEnt{&valData{body}}
			h.id = 0x0f03
		}
	} else {
		var t *typeGen
		if core.W(4) == 3 {
			t = &allTypes[core.W(len(allTypes))]
		} else {
			t = &upTypes[core.W(len(upTypes))]
		}
		m.ent, body = makeBody(t, seed, room, false, false)
		h.id = t.id
		if h.id == 0x0801 {
			m.media = body[36:]
		}
		if it.own[h.id] {
			m.ent = &ownEnt{id: h.id, data: body}
		}
	}
	if core.W(6) == 5 && !(merge && h.id == 0x0801) {
		h.packet, h.sum, h.seq = true, uint16(core.W(5)), uint16(core.W(5))
		if core.W(3) == 2 {
			h.sum, h.seq = uint16(core.W(65536)), uint16(core.W(65536))
		}
	}
	switch core.W(12) {
	case 10:
		h.phone = 0
	case 11:
		h.phone = uint64(core.W(1000000)) * 999999 % 1000000000000
	}
	if it.repeat && len(it.msgs) > 0 && core.W(4) == 3 {
		// nothing obliges a terminal to number its messages well
		l := it.msgs[len(it.msgs)-1]
		core.Count("serial number repeated")
		if core.W(2) == 1 {
			c := *l
			it.msgs = append(it.msgs, &c)
			return &c
		}
		h.serial = l.h.serial
	}
	if core.W(10) == 9 {
		h.bits = uint16(core.W(16)) << 11 & 0xd800
	}
	m.setWire(h, body)
	it.msgs = append(it.msgs, m)
	return m
}

func (m *inMsg) setWire(h hdr, body []byte) {
	m.h, m.body = h, body
	raw := rawHeader(h, len(body))
	m.prop = uint16(raw[2])<<8 | uint16(raw[3])
	m.wire = wrap(append(raw, body...))
}

// onMsg is the application's handler.
func (in *inbound) onMsg(s *go808.Session, msg *protocol.Message) {
	idx := snoIdx(msg.Header.MsgSerialNo)
	if idx >= len(in.ts) {
		if in.lax {
			return
		}
		core.Fail("a handler is given a %04x message with serial %d that no terminal sent", uint16(msg.Header.MsgID), msg.Header.MsgSerialNo)
	}
	it := in.ts[idx]
	k := (int(snoK(msg.Header.MsgSerialNo)) - it.k0) & 0xfff
	if in.lax && (k >= len(it.msgs) || it.msgs[k].expect == 2) {
		return
	}
	if k >= len(it.msgs) || k >= it.sent {
		core.Fail("a handler is given a %04x message with serial %d that %s did not send", uint16(msg.Header.MsgID), msg.Header.MsgSerialNo, it.t.name)
	}
	for j := range it.msgs {
		if it.repeat && it.msgs[j].h.serial == msg.Header.MsgSerialNo && (it.msgs[k].got > 0 || it.msgs[k].h.serial != msg.Header.MsgSerialNo) {
			k = j
		}
	}
	m := it.msgs[k]
	core.Note("app", "%s message %d type %04x delivered on session %d", it.t.name, k, uint16(msg.Header.MsgID), s.ID())
	m.got++
	if m.got > 1 {
		core.Fail("message %d of %s (type %04x) is delivered %d times", k, it.t.name, m.h.id, m.got)
	}
	if m.expect == 0 {
		core.Fail("message %d of %s (type %04x) is delivered although it must not be", k, it.t.name, m.h.id)
	}
	if k < it.last {
		core.Fail("message %d of %s is delivered after message %d", k, it.t.name, it.last)
	}
	for j := it.last + 1; j < k; j++ {
		if it.msgs[j].expect == 1 && it.msgs[j].got == 0 {
			core.Fail("message %d of %s is delivered and message %d, sent before it, is not: type %04x, frame %x", k, it.t.name, j, it.msgs[j].h.id, it.msgs[j].wire)
		}
	}
	it.last = k
	if it.sess == nil {
		for _, o := range in.ts {
			if o.sess != nil && o.sess == s {
				core.Fail("one session carries the messages of %s and %s", o.t.name, it.t.name)
			}
		}
		it.sess, it.sessID = s, s.ID()
	} else if it.sess != s {
		core.Fail("messages of %s arrive on different sessions", it.t.name)
	}
	if d := m.compare(msg); d != "" {
		core.Fail("message %d of %s (type %04x) reaches its handler changed: %s", k, it.t.name, m.h.id, d)
	}
	if m.media != nil || m.h.id == 0x0801 {
		p, ok := msg.Body.(*protocol.T808_0x0801)
		if ok {
			if b := readAll(p.GetReader()); !bytes.Equal(b, m.media) {
				core.Fail("message %d of %s: media data is %d bytes %x instead of %d bytes %x", k, it.t.name, len(b), cut(b), len(m.media), cut(m.media))
			}
		}
	}
	m.msg = msg
	if in.check != nil {
		in.check(it, m, s, msg)
	}
	if in.slow && core.W(6) == 5 {
		core.SleepFor(int64(core.W(300)) * ms)
	}
	if in.replies > 0 && core.W(3) == 2 {
		in.replies--
		s.Reply(msg, protocol.T808_0x8001ResultSuccess)
	}
	core.RelMerge(&in.e.endTok)
	m.done = true
}

func cut(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// compare checks a delivered message against what was sent.
func (m *inMsg) compare(msg *protocol.Message) string {
	g := msg.Header
	if uint16(g.MsgID) != m.h.id || g.IccID != m.h.phone || g.MsgSerialNo != m.h.serial || uint16(g.Property) != m.prop {
		return fmt.Sprintf("header type %04x phone %d serial %d properties %04x instead of %04x %d %d %04x", uint16(g.MsgID), g.IccID, g.MsgSerialNo, uint16(g.Property), m.h.id, m.h.phone, m.h.serial, m.prop)
	}
	if m.h.packet != (g.Packet != nil) {
		return fmt.Sprintf("packet part of the header present: %v instead of %v", g.Packet != nil, m.h.packet)
	}
	if m.h.packet && (g.Packet.Sum != m.h.sum || g.Packet.Seq != m.h.seq) {
		return fmt.Sprintf("packet %d/%d instead of %d/%d", g.Packet.Seq, g.Packet.Sum, m.h.seq, m.h.sum)
	}
	return diff(msg.Body, m.ent)
}

// recheck compares the retained messages again at the end.
func (in *inbound) recheck() {
	in.e.sync()
	for _, it := range in.ts {
		for k, m := range it.msgs {
			if m.msg == nil || !m.done {
				continue
			}
			if d := m.compare(m.msg); d != "" {
				core.Fail("message %d of %s (type %04x), kept by the application, changes after its handler returned: %s", k, it.t.name, m.h.id, d)
			}
		}
	}
}

func (it *inTerm) allGot() bool {
	for _, m := range it.msgs {
		if m.expect == 1 && m.got == 0 {
			return false
		}
	}
	return true
}

func (it *inTerm) missing() int {
	for k, m := range it.msgs {
		if m.expect == 1 && m.got == 0 {
			return k
		}
	}
	return -1
}

// refused finds an "unsupported" answer to a message.
func (it *inTerm) refused(m *inMsg) int {
	n := 0
	for _, f := range it.t.replies(m.h.id, m.h.serial) {
		if f.body[4] == 3 {
			n++
		}
	}
	return n
}

// send transmits the messages of one terminal in arbitrary pieces.
func (it *inTerm) send() bool {
	mode := core.W(4)
	if core.W(2) == 1 {
		// back to back: one write carries several frames
		var b []byte
		for _, m := range it.msgs {
			b = append(b, m.wire...)
		}
		it.sent = len(it.msgs)
		return it.t.writeCut(b, mode)
	}
	for _, m := range it.msgs {
		it.sent++
		if !it.t.writeCut(m.wire, mode) {
			return false
		}
		if core.W(4) == 3 {
			core.SleepFor(int64(core.W(400)) * ms)
		}
	}
	return true
}

func newInbound(o srvOpt) *inbound {
	in := &inbound{}
	o.handler = in.onMsg
	in.e = startServer(o)
	return in
}

func (in *inbound) addTerm() *inTerm {
	i := len(in.ts)
	it := &inTerm{t: dial(in.e, fmt.Sprintf("T%d", i), phoneN(i)), idx: i, last: -1, k0: core.W(4000)}
	in.ts = append(in.ts, it)
	return it
}

func scenInbound() {
	randNet()
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, 3*sec)
	}
	merge, custom := core.WP(0.3), core.WP(0.25)
	var own map[uint16]bool
	in := newInbound(srvOpt{keepalive: 3600, merge: merge, key: core.WP(0.2), types: typeIDs(), setup: func(*go808.Server) {
		if custom {
			own = ownTypes()
		}
	}})
	in.slow = core.WP(0.3)
	if core.WP(0.4) {
		in.replies = 16
	}
	n := 1 + core.W(4)
	half := core.WP(0.3)
	repeat := core.WP(0.15)
	done := 0
	for i := 0; i < n; i++ {
		it := in.addTerm()
		it.repeat, it.own = repeat, own
		k := 1 + core.W(8)
		if core.W(6) == 5 {
			k = 1 + core.W(30)
		}
		for j := 0; j < k; j++ {
			it.draw(merge, custom)
		}
		core.GoIn(core.CurGroup(), it.t.name, func() {
			if !it.send() {
				core.Fail("the server breaks the connection of %s while it sends well-formed messages", it.t.name)
			}
			if half {
				it.t.conn.CloseWrite()
			}
			done++
			core.Poke()
		})
	}
	must(600*sec, "a terminal cannot send its messages within 600 s", func() bool { return done == n })
	core.StopFaults()
	for _, it := range in.ts {
		if !core.WaitFor(120*sec, it.allGot) {
			core.Fail("message %d of %s (type %04x) is never delivered: frame %x", it.missing(), it.t.name, it.msgs[it.missing()].h.id, it.msgs[it.missing()].wire)
		}
		if !half && it.t.eof {
			core.Fail("the server closes the connection of %s although everything it sent is well-formed", it.t.name)
		}
		for k, m := range it.msgs {
			if it.refused(m) > 0 {
				core.Fail("message %d of %s is delivered and also answered as unsupported", k, it.t.name)
			}
		}
		core.State(uint64(len(it.msgs)))
	}
	core.SleepFor(2 * sec)
	in.recheck()
}

// scenStream: a terminal with much to tell sends it all at once, far more than
// any one message may have, while others send as usual.
func scenStream() {
	randNet()
	// no single bytes here: too many steps
	c := netCfg()
	c.SegMode, c.ReadMode = c.SegMode&1, c.ReadMode&1
	in := newInbound(srvOpt{keepalive: 36000, types: typeIDs(), setup: func(*go808.Server) { registerOwn() }})
	if core.WP(0.5) {
		in.replies = 16
	}
	n := 1 + core.W(2)
	done := 0
	for i := 0; i < n; i++ {
		it := in.addTerm()
		k, room := 70+core.W(180), []int{1023, 1000, 960, 127, 128}[core.W(5)]
		if i > 0 {
			k = 1 + core.W(5)
		}
		r := rnd{uint64(core.WBits())}
		for j := 0; j < k; j++ {
			body := r.bytes(room/2 + r.n(room/2+1))
			m := &inMsg{expect: 1, ent: &rawEnt{body}}
			m.setWire(hdr{id: 0x0f01, phone: it.t.phone, serial: sno(uint16(i), uint16(it.k0+j))}, body)
			it.msgs = append(it.msgs, m)
		}
		core.GoIn(core.CurGroup(), it.t.name, func() {
			var b []byte
			for _, m := range it.msgs {
				b = append(b, m.wire...)
			}
			it.sent = len(it.msgs)
			if !it.t.writeCut(b, core.W(2)) {
				core.Fail("the server breaks the connection of %s while it sends a long stream of well-formed messages", it.t.name)
			}
			done++
			core.Poke()
		})
	}
	must(30000*sec, "a terminal cannot send its messages within 30000 s", func() bool { return done == n })
	core.StopFaults()
	for _, it := range in.ts {
		if !core.WaitFor(600*sec, it.allGot) {
			core.Fail("message %d of %d of %s, sent in one long stream, is never delivered", it.missing(), len(it.msgs), it.t.name)
		}
		if it.t.eof {
			core.Fail("the server closes the connection of %s although everything it sent is well-formed", it.t.name)
		}
	}
	core.SleepFor(2 * sec)
	in.recheck()
}

func init() {
	register(&property{id: "C01", level: "exploration", runs: 20000, scen: []scenario{{"inbound", 60, scenInbound}, {"stream", 1, scenStream}}})
}
