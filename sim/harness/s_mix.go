// Everything at once: every operation from every place an application may
// call it from.
package main

import (
	"crypto/rsa"
	"fmt"

	"gosim/core"
	"gosim/snet"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

type mixOp struct {
	what  string
	where string
	at    int64
	done  bool
}

type mixWorld struct {
	fl      *fleet
	ops     []*mixOp
	depth   int
	calls   int // operations started inside handlers and callbacks
	phase   int // 0: traffic; 1: winding down
	stops   int
	mayStop bool
	cbs     int
}

// call runs one operation and records whether it returns.
func (w *mixWorld) call(where, what string, fn func()) {
	o := &mixOp{what: what, where: where, at: core.Now()}
	w.ops = append(w.ops, o)
	core.Note("app", "%s: %s", where, what)
	fn()
	o.done = true
	core.Note("app", "%s: %s returns", where, what)
}

// stuck finds an operation that has been under way for d.
func (w *mixWorld) stuck(d int64) *mixOp {
	for _, o := range w.ops {
		if !o.done && core.Now()-o.at > d {
			return o
		}
	}
	return nil
}

var mixEnts = []uint16{0x8104, 0x8201, 0x8300, 0x8106, 0x8702, 0x8801}

func mixEntity() protocol.Entity {
	e, _ := makeBody(typeByID(mixEnts[core.W(len(mixEnts))]), core.WBits(), 60, true, false)
	return e
}

// op performs a random operation, on the given session or another one.
func (w *mixWorld) op(where string, own *go808.Session, msg *protocol.Message, reentrant bool) {
	if reentrant {
		if w.calls > 60 {
			return
		}
		w.calls++
	}
	s := own
	if s == nil || core.W(2) == 1 {
		if n := len(w.fl.ts); n > 0 {
			if x := w.fl.ts[core.W(n)].box.get(); x != nil {
				s = x
			}
		}
	}
	srv := w.fl.e.server()
	if s == nil {
		w.call(where, "Broadcast", func() { srv.Broadcast(mixEntity()) })
		return
	}
	switch core.W(15) {
	case 14:
		w.call(where, "SetLogLevel", func() {
			l := go808.PanicLevel
			if core.W(2) == 1 {
				l = go808.DebugLevel
			}
			if err := go808.SetLogLevel(l); err != nil {
				core.Fail("SetLogLevel fails: %s", err.Error())
			}
		})
	case 0, 1:
		w.call(where, "Send", func() { s.Send(mixEntity()) })
	case 2, 3:
		w.call(where, "Request", func() {
			s.Request(mixEntity(), func(m *protocol.Message) {
				w.cbs++
				w.op("request callback", s, m, true)
			})
		})
	case 4:
		w.call(where, "Broadcast", func() { srv.Broadcast(mixEntity()) })
	case 5:
		w.call(where, "GetSession", func() {
			if x, ok := srv.GetSession(s.ID()); ok && (x != s || x.ID() != s.ID()) {
				core.Fail("GetSession returns another session")
			}
		})
	case 6:
		w.call(where, "SetPublicKey", func() { s.SetPublicKey(&testKey.PublicKey) })
	case 7:
		w.call(where, "GetPublicKey", func() {
			var k *rsa.PublicKey = s.GetPublicKey()
			if k != nil && k != &testKey.PublicKey {
				core.Fail("GetPublicKey returns a key nobody set")
			}
		})
	case 8:
		if core.W(3) == 2 {
			core.Count("application closes session")
			w.call(where, "Close", func() { s.Close() })
		}
	case 9:
		id := allTypes[core.W(len(allTypes))].id
		w.call(where, "AddHandler", func() { w.fl.e.handle(srv, id) })
	case 10:
		if msg != nil {
			w.call(where, "Reply", func() { s.Reply(msg, protocol.T808_0x8001ResultSuccess) })
		}
	case 11:
		w.call(where, "GetServer", func() {
			if s.GetServer() != srv {
				core.Fail("a session belongs to another server")
			}
			if srv.GetPrivateKey() != testKey {
				core.Fail("GetPrivateKey returns another key")
			}
		})
	case 12:
		// Stop inside a close handler would wait for itself
		if where != "close handler" && w.mayStop && w.stops == 0 && core.W(4) == 3 {
			w.stops++
			core.Count("Stop in the middle")
			w.call(where, "Stop", func() { srv.Stop() })
		}
	case 13:
		if !w.mayStop && core.W(4) == 3 {
			w.call(where, "Run of a running server", func() {
				if err := srv.Run("tcp", w.fl.e.port); err == nil {
					core.Fail("a second Run of a running server reports no error")
				}
			})
		}
	}
}

func scenMix() {
	randNet()
	if netCfg().SegMode == 2 {
		netCfg().SegMode = 3
	}
	if core.WP(0.3) {
		core.EnableStalls(0.01, 6, sec)
	}
	if core.WP(0.3) {
		netCfg().Buf = 200
	}
	// terminals that cease to read, or are cut off without notice
	deaf := core.WP(0.3)
	if deaf {
		netCfg().Buf = 20 + core.W(200)
	}
	w := &mixWorld{mayStop: core.WP(0.4)}
	handlerP := []float64{0.1, 0.5, 1}[core.W(3)]
	closeP := []float64{0, 0.5, 1}[core.W(3)]
	keep := int64(36000)
	if core.WP(0.3) {
		keep = 3 + int64(core.W(4))
	}
	w.fl = newFleet(srvOpt{keepalive: keep, merge: core.WP(0.5), key: true, onClose: func(s *go808.Session) {
		if core.WP(closeP) {
			w.op("close handler", s, nil, true)
		}
	}})
	w.fl.onMsg = func(t *Term, s *go808.Session, m *protocol.Message) {
		if core.WP(handlerP) {
			w.op("message handler", s, m, true)
		}
	}
	e := w.fl.e
	nt := 1 + core.W(3)
	done, total := 0, 0
	for i := 0; i < nt; i++ {
		t := w.fl.addQuiet()
		if t.conn == nil {
			continue
		}
		t.onFrame = func(f *rxFrame) {
			if f.h.id >= 0x8104 && f.h.id != 0x8300 && core.W(2) == 1 && len(t.rx) < 40 {
				// answer; a frame of its own connection's reader goroutine
				t.answers = append(t.answers, f.h.serial)
				core.Poke()
			}
		}
		if core.W(5) == 4 {
			t.slow = int64(core.W(100)) * ms
		}
		total++
		k := 2 + core.W(8)
		core.GoIn(core.CurGroup(), t.name, func() {
			for j := 0; j < k && !t.eof; j++ {
				var f []byte
				switch core.W(8) {
				case 0:
					f, _ = t.up(0x0002, nil)
				case 1:
					tag := uint32(core.W(3))
					s := sno(t.idx, t.next())
					f = frame(hdr{id: 0x0801, phone: t.phone, serial: s, packet: true, sum: 2, seq: uint16(1 + core.W(2))}, partBody(0x0801, tag, content(40)))
				case 2:
					r := rnd{uint64(core.WBits())}
					s := sno(t.idx, t.next())
					f = frame(hdr{id: 0x0200, phone: t.phone, serial: s, crypt: true}, encryptBody(&testKey.PublicKey, &r, sampleLoc()))
				case 3:
					if core.W(4) == 3 {
						core.Count("hostile: checksum wrong")
						f = []byte{0x7e, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x7e}
						break
					}
					f, _ = t.up(0x7777, []byte{1})
				default:
					f, _ = t.up(0x0200, sampleLoc())
				}
				if len(t.answers) > 0 {
					a := t.answers[0]
					t.answers = t.answers[1:]
					g, _ := t.up(0x0001, []byte{byte(a >> 8), byte(a), 0x81, 4, 0})
					f = append(append([]byte{}, f...), g...)
				}
				if !t.writeCut(f, core.W(4)) {
					break
				}
				core.SleepFor(int64(core.W(200)) * ms)
				if deaf && !t.stopped && core.W(4) == 3 {
					core.Count("terminal stops reading")
					t.stopped = true
				}
			}
			if core.W(3) == 2 {
				core.Count("terminal closes")
				t.close()
			}
			done++
			core.Poke()
		})
	}
	na := 1 + core.W(4)
	for g := 0; g < na; g++ {
		total++
		n := 1 + core.W(10)
		e.app(fmt.Sprintf("app%d", g), func() {
			for k := 0; k < n; k++ {
				w.op("goroutine", nil, nil, false)
				if core.W(3) == 2 {
					core.SleepFor(int64(core.W(200)) * ms)
				}
			}
			done++
			core.Poke()
		})
	}
	limit := 60 * sec
	if !core.WaitFor(300*sec, func() bool { return done == total }) {
		if o := w.stuck(limit); o != nil {
			core.Fail("%s called in a %s does not return within 60 s", o.what, o.where)
		}
		core.Fail("terminals or application goroutines do not finish within 300 s")
	}
	core.StopFaults()
	core.SleepFor(limit + sec)
	if o := w.stuck(limit); o != nil {
		core.Fail("%s called in a %s does not return within 60 s", o.what, o.where)
	}
	// whatever happened, the server still works
	if w.stops > 0 {
		if !core.WaitFor(30*sec, func() bool { return e.runEnd == 1 }) {
			core.Fail("Run does not return within 30 s of Stop")
		}
		e.run()
		e.waitListening()
	} else if e.runEnd > 0 {
		core.Fail("Run returns although nobody called Stop: %s", e.runErr)
	}
	w.calls = 1000
	closeP, handlerP = 0, 0
	netCfg().Buf, netCfg().SpikeP, netCfg().DelayVar = 1<<20, 0, 0
	t := w.fl.add()
	fin := false
	e.app("last", func() {
		if _, err := t.box.get().Send(&protocol.T808_0x8104{}); err != nil && keep > 100 {
			core.Fail("sending to a newly connected terminal fails: %s", err.Error())
		}
		fin = true
		core.Poke()
	})
	if keep > 100 {
		must(30*sec, "a newly connected terminal does not receive what is sent to it", func() bool { return fin && t.count(0x8104) >= 1 })
	}
	fin = false
	e.app("stop", func() { e.server().Stop(); fin = true; core.Poke() })
	must(60*sec, "Stop does not return within 60 s", func() bool { return fin })
	core.SleepFor(5 * sec)
	if n := snet.OpenConns(); n > 0 {
		for _, x := range w.fl.ts {
			if x.conn != nil {
				x.conn.Close()
			}
		}
	}
	core.State(uint64(len(w.ops)))
}

var locBody []byte

func sampleLoc() []byte {
	if locBody == nil {
		_, locBody = makeBody(typeByID(0x0200), 0, 128, false, false)
	}
	return locBody
}

func init() {
	register(&property{id: "C18", level: "exploration", runs: 25000, scen: []scenario{{"mix", 1, scenMix}}})
}
