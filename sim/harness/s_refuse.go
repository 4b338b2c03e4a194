// Well-formed frames whose contents cannot be understood.
package main

import (
	"gosim/core"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// fixedPart is the least a body of the type can consist of, by the protocol.
var fixedPart = []struct {
	id uint16
	n  int
}{{0x0001, 5}, {0x0100, 37}, {0x0200, 28}, {0x0301, 1}, {0x0801, 36}, {0x0a00, 132}, {0x0302, 3}, {0x0303, 2}}

type refMsg struct {
	m    *inMsg
	what string
	must bool // it cannot be understood
}

// spoil draws a frame that is well-formed but may make no sense.
func (it *inTerm) spoil() *refMsg {
	m := &inMsg{expect: 2}
	r := rnd{uint64(core.WBits())}
	h := hdr{phone: it.t.phone, serial: sno(uint16(it.idx), uint16(it.k0+len(it.msgs)))}
	x := &refMsg{m: m}
	var body []byte
	t := &allTypes[core.W(len(allTypes))]
	h.id = t.id
	switch core.W(8) {
	case 0:
		x.what, x.must = "unknown type", true
		for h.id = uint16(core.W(0x10000)); typeByID(h.id) != nil || h.id == 0x0f01 || h.id == 0x0f03; h.id++ {
		}
		body = r.bytes(r.size(200))
	case 1:
		x.what = "random body"
		body = r.bytes(r.size(300))
	case 2:
		x.what = "body cut short"
		_, b := build(t, core.WBits(), drawRoom(), false, false)
		n := core.W(len(b.w) + 1)
		if core.W(2) == 1 {
			n = max(0, len(b.w)-1-core.W(8)) // in its last element
		}
		body = b.w[:n]
		if b.incomplete(n) {
			x.what, x.must = "body that ends before what it announces", true
		}
	case 3:
		x.what = "body with bytes changed"
		_, b := makeBody(t, core.WBits(), drawRoom(), false, false)
		body = append([]byte{}, b...)
		for i := 0; i < 3 && len(body) > 0; i++ {
			body[core.W(len(body))] = []byte{0, 1, 0xff, 0x7f, 0x80}[core.W(5)]
		}
	case 4:
		f := fixedPart[core.W(len(fixedPart))]
		x.what, x.must = "fixed part cut short", true
		h.id = f.id
		_, body = makeBody(typeByID(h.id), core.WBits(), 300, false, false)
		body = body[:min(len(body), core.W(f.n))]
	case 5:
		x.what, x.must = "damaged compressed data", true
		h.id = 0x0901
		_, b := makeBody(typeByID(0x0901), core.WBits(), 300, false, false)
		body = append([]byte{}, b...)
		if core.W(2) == 1 {
			// contents and their checksum disagree
			body[len(body)-8+core.W(4)] ^= byte(1 + core.W(255))
		} else {
			n := 1 + core.W(len(body)-5)
			body = body[:len(body)-n]
			l := len(body) - 4
			body[0], body[1], body[2], body[3] = 0, 0, byte(l>>8), byte(l)
		}
	case 6:
		x.what = "body with bytes added"
		_, b := makeBody(t, core.WBits(), 300, false, false)
		body = append(append([]byte{}, b...), r.bytes(1+core.W(20))...)
	case 7:
		x.what, x.must = "length in the header wrong", true
		_, body = makeBody(t, core.WBits(), 300, false, false)
		m.h = h
		raw := rawHeader(h, (len(body)+1+core.W(600))&0x3ff)
		m.wire = wrap(append(raw, body...))
		m.h = h
		it.msgs = append(it.msgs, m)
		core.Count("hostile: " + x.what)
		return x
	}
	if len(body) > maxBody {
		body = body[:maxBody]
	}
	m.setWire(h, body)
	it.msgs = append(it.msgs, m)
	core.Count("hostile: " + x.what)
	return x
}

func scenRefuse() {
	randNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, 3*sec)
	}
	type refTerm struct {
		it *inTerm
		xs []*refMsg
	}
	var ts []*refTerm
	var in *inbound
	o := srvOpt{keepalive: 3600, types: typeIDs(), setup: func(*go808.Server) {
		registerOwn()
	}}
	o.handler = func(s *go808.Session, msg *protocol.Message) {
		idx := snoIdx(msg.Header.MsgSerialNo)
		if idx >= len(ts) {
			core.Fail("a handler is given a message with serial %d that no terminal sent", msg.Header.MsgSerialNo)
		}
		it := ts[idx].it
		k := (int(snoK(msg.Header.MsgSerialNo)) - it.k0) & 0xfff
		if k >= len(it.msgs) || it.msgs[k].h.id != uint16(msg.Header.MsgID) {
			core.Fail("a handler is given a %04x message with serial %d that %s did not send", uint16(msg.Header.MsgID), msg.Header.MsgSerialNo, it.t.name)
		}
		m := it.msgs[k]
		m.got++
		if m.got > 1 {
			core.Fail("message %d of %s (type %04x) is delivered %d times", k, it.t.name, m.h.id, m.got)
		}
		if ts[idx].xs[k] != nil && ts[idx].xs[k].must {
			core.Fail("message %d of %s (type %04x, %s) is delivered: body %x", k, it.t.name, m.h.id, ts[idx].xs[k].what, cut(m.body))
		}
		if k < it.last {
			core.Fail("message %d of %s is delivered after message %d", k, it.t.name, it.last)
		}
		it.last = k
		if msg.Body == nil {
			core.Fail("message %d of %s (type %04x) is delivered without a body", k, it.t.name, m.h.id)
		}
		if m.expect == 1 {
			if d := m.compare(msg); d != "" {
				core.Fail("message %d of %s (type %04x), sent after frames that cannot be understood, reaches its handler changed: %s", k, it.t.name, m.h.id, d)
			}
		}
	}
	in = &inbound{}
	in.e = startServer(o)
	n := 1 + core.W(3)
	done := 0
	for i := 0; i < n; i++ {
		rt := &refTerm{it: in.addTerm()}
		ts = append(ts, rt)
		it := rt.it
		k := 2 + core.W(10)
		for j := 0; j < k; j++ {
			if core.W(4) == 0 {
				it.draw(true, true)
				rt.xs = append(rt.xs, nil)
			} else {
				rt.xs = append(rt.xs, it.spoil())
			}
		}
		core.GoIn(core.CurGroup(), it.t.name, func() {
			mode := core.W(4)
			for _, m := range it.msgs {
				it.sent++
				if !it.t.writeCut(m.wire, mode) {
					core.Fail("the server breaks the connection of %s although all its frames are well-formed", it.t.name)
				}
				if core.W(4) == 3 {
					core.SleepFor(int64(core.W(400)) * ms)
				}
			}
			done++
			core.Poke()
		})
	}
	must(600*sec, "a terminal cannot send its messages within 600 s", func() bool { return done == n })
	core.StopFaults()
	for _, rt := range ts {
		it := rt.it
		ok := func() bool {
			for _, m := range it.msgs {
				if m.got == 0 && it.refused(m) == 0 {
					return false
				}
			}
			return true
		}
		core.WaitFor(60*sec, ok)
		core.SleepFor(sec)
		if it.t.eof {
			core.Fail("the server closes the connection of %s although all its frames are well-formed", it.t.name)
		}
		last := -1
		for k, m := range it.msgs {
			c := it.refused(m)
			what := "an ordinary message"
			if rt.xs[k] != nil {
				what = rt.xs[k].what
			}
			if c+m.got != 1 {
				core.Fail("message %d of %s (type %04x, %s) is delivered %d times and answered as unsupported %d times: frame %x", k, it.t.name, m.h.id, what, m.got, c, m.wire)
			}
			if c > 0 && m.expect == 1 {
				core.Fail("message %d of %s (type %04x), which is in order, is answered as unsupported", k, it.t.name, m.h.id)
			}
		}
		// answers come in the order of the messages
		for _, f := range it.t.rx {
			if f.h.id != 0x8001 || len(f.body) != 5 || f.body[4] != 3 {
				core.Fail("%s receives a %04x message nobody sent: %x", it.t.name, f.h.id, f.body)
			}
			k := (int(snoK(uint16(f.body[0])<<8|uint16(f.body[1]))) - it.k0) & 0xfff
			if k <= last {
				core.Fail("%s receives the answer to message %d after the answer to message %d", it.t.name, k, last)
			}
			last = k
		}
		core.State(uint64(len(it.t.rx))<<8 | uint64(len(it.msgs)))
	}
}

func init() {
	register(&property{id: "C17", level: "exploration", runs: 16000, scen: []scenario{{"refuse", 1, scenRefuse}}})
}
