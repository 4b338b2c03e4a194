// Keepalive: silent connections end, live ones do not.
package main

import (
	"bytes"
	"fmt"

	"gosim/core"
	"gosim/sos"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

// beat makes one complete message that counts as a sign of life.
func beat(t *Term, kind int) []byte {
	switch kind {
	case 1: // a type the application has no handler for
		f, _ := t.up(0x0301, []byte{1})
		return f
	case 2: // an unknown type
		f, _ := t.up(0x0fee, []byte{1, 2, 3})
		return f
	case 3: // a body that cannot be decoded
		f, _ := t.up(0x0001, []byte{1})
		return f
	case 4:
		_, b := makeBody(typeByID(0x0200), core.WBits(), 200, false, false)
		f, _ := t.up(0x0200, b)
		return f
	case 5: // an answer to nothing
		f, _ := t.up(0x0001, []byte{0, 9, 0x81, 4, 0})
		return f
	}
	switch kind {
	case 6, 7: // a packet of a message that is never complete, its last one too
		sum := uint16(20 + core.W(3))
		seq := 1 + uint16(core.W(5))
		if core.W(4) == 3 {
			seq = sum
		}
		core.Count("packet as a sign of life")
		return frame(hdr{id: 0x0801, phone: t.phone, serial: sno(t.idx, t.next()), packet: true, sum: sum, seq: seq}, partBody(0x0801, 5, make([]byte, core.W(30))))
	case 8: // a packet that is a message of its own
		return frame(hdr{id: 0x0801, phone: t.phone, serial: sno(t.idx, t.next()), packet: true, sum: 1, seq: 1}, partBody(0x0801, 6, make([]byte, core.W(30))))
	case 9: // a packet too short to be one, with and without the packet's mark
		return frame(hdr{id: 0x0801, phone: t.phone, serial: sno(t.idx, t.next()), packet: core.W(2) == 1, sum: 3, seq: 1}, make([]byte, core.W(36)))
	case 10: // nobody's number
		return frame(hdr{id: 0x0002, phone: 0, serial: sno(t.idx, t.next())}, nil)
	case 11: // the handler panics
		f, _ := t.up(0x0100, makeRaw(0x0100))
		return f
	}
	switch kind {
	case 12: // the same serial number every time
		return frame(hdr{id: []uint16{0x0002, 0x0fee}[core.W(2)], phone: t.phone, serial: sno(t.idx, 0)}, nil)
	case 13: // encrypted
		if keepKey {
			r := rnd{uint64(core.WBits()) | 1}
			return frame(hdr{id: 0x0200, phone: t.phone, serial: sno(t.idx, t.next()), crypt: true}, encryptBody(&testKey.PublicKey, &r, sampleLoc()))
		}
	case 14: // a length that disagrees with the header
		h := hdr{id: 0x0002, phone: t.phone, serial: sno(t.idx, t.next())}
		return wrap(append(rawHeader(h, 4), 1))
	case 15: // as long as can be
		return frame(hdr{id: 0x0fee, phone: t.phone, serial: sno(t.idx, t.next())}, bytes.Repeat([]byte{0x7e}, 1023))
	case 16: // its last byte is an escaped checksum
		for {
			f, _ := t.up(0x0002, nil)
			if f[len(f)-3] == 0x7d || t.serial&0x3ff == 0 {
				return f
			}
		}
	}
	f, _ := t.up(0x0002, nil)
	return f
}

var keepKey bool

func makeRaw(id uint16) []byte {
	_, b := makeBody(typeByID(id), core.WBits(), 60, false, false)
	return b
}

func scenKeepalive() {
	randNet()
	quietNet()
	// one keepalive bound per run; zero asks for the default of one minute
	k := []int64{5, 2, 3, 10, 30, 0, 7}[core.W(7)]
	if core.W(40) == 39 {
		k = []int64{130, 257, 300}[core.W(3)]
		core.Count("keepalive of minutes")
	}
	keepKey = core.WP(0.3)
	fl := newFleet(srvOpt{keepalive: k, key: keepKey, merge: core.WP(0.4), types: []uint16{0x0002, 0x0200, 0x0001, 0x0100, 0x0801}[:3+core.W(3)]})
	if core.WP(0.15) {
		sos.Cfg.OpenErrP, sos.Cfg.WriteErrP = 0.5, 0.3
	}
	var slow int64 // how long a handler may take
	if core.WP(0.3) {
		slow = (max(2, k) - 1) * sec / 2
		core.Count("slow handlers")
	}
	fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if slow > 0 {
			core.SleepFor(slow * int64(core.W(101)) / 100)
		}
		if m.Header.MsgID == protocol.MsgT808_0x0100 {
			panic("the handler fails")
		}
		if core.W(3) == 2 {
			s.Reply(m, protocol.T808_0x8001ResultSuccess)
		}
	}
	if k == 0 {
		k = 60
	}
	K := k * sec
	n := 1 + core.W(4)
	done := 0
	jumps := core.WP(0.5)
	pushes := core.WP(0.3)
	// other connections come and go, before and meanwhile
	churned, churning := 0, false
	churn := func(m int, gap int) {
		for j := 0; j < m; j++ {
			x := dial(fl.e, "passer-by", 1)
			core.SleepFor(int64(core.W(gap)) * ms)
			x.close()
			churned++
		}
		core.Count("other connections come and go")
	}
	if core.WP(0.2) {
		churn([]int{1, 8, 9, 12, 30, 98, 110}[core.W(7)], 3)
	}
	if core.WP(0.15) {
		// the server was stopped and runs again
		for j := 0; j < 1+core.W(2); j++ {
			var x *Term
			if core.W(2) == 1 {
				x = dial(fl.e, "earlier", 1)
				core.SleepFor(int64(core.W(3000)) * ms)
				churned++
			}
			fin := false
			fl.e.app("stop", func() { fl.e.server().Stop(); fin = true; core.Poke() })
			must(60*sec, "Stop does not return within 60 s", func() bool { return fin })
			if x != nil {
				x.close()
			}
			core.SleepFor(int64(core.W(3000)) * ms)
			fl.e.run()
			fl.e.waitListening()
			core.Count("server stopped and run again")
		}
	}
	if core.WP(0.3) {
		m := 1 + core.W(12)
		churning = true
		core.GoIn(core.CurGroup(), "churn", func() {
			churn(m, 3000)
			churning = false
			core.Poke()
		})
	}
	for i := 0; i < n; i++ {
		core.SleepFor(int64(core.W(1500)) * ms)
		t := fl.addQuiet()
		beats := core.W(6)
		kind := core.W(32) // one kind only, or any
		partial := core.WP(0.3)
		core.GoIn(core.CurGroup(), t.name, func() {
			last := core.Now()
			open := func(when string) {
				if t.eof {
					core.Fail("the connection of %s is closed %.3f s after its last message %s; the keepalive time is %d s", t.name, float64(t.eofAt-last)/1e9, when, k)
				}
			}
			for j := 0; j < beats; j++ {
				// a gap within the keepalive time
				gap := (K - sec) * int64(core.W(91)) / 100
				if core.W(3) == 0 {
					gap = (K - sec) * 90 / 100
				}
				// the message before it has been dealt with
				gap = max(gap, min(slow+300*ms, (K-sec)*90/100))
				core.SleepFor(gap)
				open("(within it)")
				f := beat(t, kind)
				if kind > 16 {
					f = beat(t, core.W(17))
				}
				if partial && core.W(2) == 1 {
					// the frame is complete only with its last byte
					h := 1 + core.W(len(f)-1)
					t.write(f[:h])
					core.SleepFor(min(50*ms, K-sec-gap))
					f = f[h:]
				}
				t.write(f)
				last = core.Now()
			}
			// now only silence, or bytes that never become a message
			if partial {
				m, _ := t.up(0x0002, nil)
				end := core.Now() + K + 4*sec
				for j := 0; j < len(m)-1 && core.Now() < end && !t.eof; j++ {
					t.write(m[j : j+1])
					core.SleepFor(K / 9)
				}
				core.Count("incomplete message trickles in")
			} else {
				core.Count("terminal falls silent")
			}
			core.WaitFor(max(0, last+K-sec-100*ms-core.Now()), func() bool { return t.eof })
			if t.eof && t.eofAt < last+K-sec-100*ms {
				open("already")
			}
			if !core.WaitFor(max(0, last+K+2*sec+200*ms-core.Now()), func() bool { return t.eof }) {
				core.Fail("%s is silent for %.3f s and its connection is still open; the keepalive time is %d s", t.name, float64(core.Now()-last)/1e9, k)
			}
			done++
			core.Poke()
		})
		if pushes {
			fl.e.app("pusher", func() {
				for j := 0; j < 8 && !t.eof; j++ {
					if s := t.box.get(); s != nil {
						s.Send(&protocol.T808_0x8104{})
					}
					core.SleepFor(K / 3)
				}
			})
		}
	}
	if jumps {
		core.GoIn(core.CurGroup(), "clock", func() {
			for j := 0; j < 6; j++ {
				core.SleepFor(int64(core.W(4000)) * ms)
				d := []int64{-3600 * sec, 3600 * sec, 10 * sec, -10 * sec, 86400 * sec}[core.W(5)]
				core.Count("wall clock jump")
				core.JumpWall(d)
			}
		})
	}
	must(3600*sec, "connections do not end within an hour", func() bool { return done == n })
	if !core.WaitFor(200*sec, func() bool { return !churning && len(fl.e.closes) == n+churned }) {
		core.Fail("%d connections ended by keepalive, %d otherwise, and %d closes are reported", n, churned, len(fl.e.closes))
	}
	core.State(uint64(n)<<8 | uint64(k))
}

var _ = fmt.Sprint

func init() {
	register(&property{id: "C07", level: "exploration", runs: 60000, scen: []scenario{{"keepalive", 1, scenKeepalive}}})
}
